// Hash-consed bit-vector expressions with simplification, interval analysis,
// evaluation under a model and lowering to Z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>
#include <z3.h>

typedef uint64_t u64;
typedef int64_t  i64;
typedef uint32_t u32;
typedef uint8_t  u8;
typedef uint16_t u16;
typedef unsigned __int128 u128;
typedef __int128          i128;

typedef u32 E; // expression id; 0 means "concrete"

struct V {
  u64 c;
  E   e;
};

enum Op : u8 {
  O_NONE, O_CONST, O_VAR, O_UNDEF,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
  O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE
};

struct Node {
  u8  op;
  u8  w;     // width in bits, 1..64
  u8  undef; // mentions uninitialised data
  u8  tz;    // known trailing zero bits
  u32 a, b, c;
  u64 k; // CONST value / VAR index / EXTRACT low bit
  u64 ulo, uhi;
  i64 slo, shi;
  u64 vs; // set of variables mentioned (index modulo 64)
};

static inline u64 maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sext64(u64 v, int w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w))) >> (64 - w); }
static inline i64 smin_w(int w) { return w >= 64 ? INT64_MIN : -(1ll << (w - 1)); }
static inline i64 smax_w(int w) { return w >= 64 ? INT64_MAX : (1ll << (w - 1)) - 1; }

struct VarInfo {
  std::string name;
  int         w;
  u64         ulo, uhi;
  i64         slo, shi;
  bool        sgn;
};

struct ExprPool {
  std::vector<Node>    n;
  std::vector<u32>     ht;
  u32                  hmask;
  std::vector<VarInfo> vars;
  // evaluation memo
  std::vector<u32> stamp;
  std::vector<u64> val;
  u32              curStamp = 0;

  ExprPool() {
    n.reserve(1 << 20);
    n.push_back(Node{});
    ht.assign(1 << 18, 0);
    hmask = (1 << 18) - 1;
  }
  static u64 hsh(const Node& x) {
    u64 h = x.op * 0x9E3779B97F4A7C15ull + x.w;
    h     = (h ^ x.a) * 0xff51afd7ed558ccdull;
    h     = (h ^ (h >> 29) ^ x.b) * 0xc4ceb9fe1a85ec53ull;
    h     = (h ^ (h >> 31) ^ x.c) * 0x9E3779B97F4A7C15ull;
    h     = (h ^ (h >> 30) ^ x.k) * 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
  }
  void rehash() {
    size_t sz = ht.size() * 2;
    ht.assign(sz, 0);
    hmask = sz - 1;
    for (u32 i = 1; i < n.size(); i++) {
      u64 h = hsh(n[i]) & hmask;
      while (ht[h]) h = (h + 1) & hmask;
      ht[h] = i;
    }
  }
  void intervals(Node& x) {
    int w  = x.w;
    x.ulo  = 0;
    x.uhi  = maskw(w);
    x.slo  = smin_w(w);
    x.shi  = smax_w(w);
    x.tz   = 0;
    x.undef = (x.op == O_UNDEF) || (x.a && n[x.a].undef) || (x.b && n[x.b].undef) || (x.c && n[x.c].undef);
    const Node *A = &n[x.a], *B = &n[x.b], *C = &n[x.c];
    x.vs = (x.a ? A->vs : 0) | (x.b ? B->vs : 0) | (x.c ? C->vs : 0);
    if (x.op == O_VAR) x.vs = 1ull << (x.k & 63);
    auto        setu = [&](u64 lo, u64 hi) { x.ulo = lo; x.uhi = hi; };
    auto        sets = [&](i64 lo, i64 hi) { x.slo = lo; x.shi = hi; };
    switch (x.op) {
    case O_CONST:
      setu(x.k, x.k);
      sets(sext64(x.k, w), sext64(x.k, w));
      x.tz = x.k ? std::min<int>(__builtin_ctzll(x.k), w) : w;
      return;
    case O_VAR: {
      auto& vi = vars[x.k];
      setu(vi.ulo, vi.uhi);
      sets(vi.slo, vi.shi);
      break;
    }
    case O_ADD: {
      u128 lo = (u128)A->ulo + B->ulo, hi = (u128)A->uhi + B->uhi;
      if (hi <= maskw(w)) setu((u64)lo, (u64)hi);
      else if (lo > maskw(w) && (hi >> w) == 1) setu((u64)lo & maskw(w), (u64)hi & maskw(w));
      i128 sl = (i128)A->slo + B->slo, sh = (i128)A->shi + B->shi;
      if (sl >= smin_w(w) && sh <= smax_w(w)) sets((i64)sl, (i64)sh);
      x.tz = std::min(A->tz, B->tz);
      break;
    }
    case O_SUB: {
      if (A->ulo >= B->uhi) setu(A->ulo - B->uhi, A->uhi - B->ulo);
      i128 sl = (i128)A->slo - B->shi, sh = (i128)A->shi - B->slo;
      if (sl >= smin_w(w) && sh <= smax_w(w)) sets((i64)sl, (i64)sh);
      x.tz = std::min(A->tz, B->tz);
      break;
    }
    case O_MUL: {
      u128 hi = (u128)A->uhi * B->uhi;
      if (hi <= maskw(w)) setu(A->ulo * B->ulo, (u64)hi);
      i128 p[4] = {(i128)A->slo * B->slo, (i128)A->slo * B->shi, (i128)A->shi * B->slo, (i128)A->shi * B->shi};
      i128 mn = std::min(std::min(p[0], p[1]), std::min(p[2], p[3])), mx = std::max(std::max(p[0], p[1]), std::max(p[2], p[3]));
      if (mn >= smin_w(w) && mx <= smax_w(w)) sets((i64)mn, (i64)mx);
      x.tz = std::min(w, A->tz + B->tz);
      break;
    }
    case O_UDIV:
      if (B->ulo > 0) setu(A->ulo / B->uhi, A->uhi / B->ulo);
      break;
    case O_UREM:
      if (B->ulo > 0) setu(0, std::min(A->uhi, B->uhi - 1));
      break;
    case O_SDIV:
      if (B->slo > 0) {
        i64 c[4] = {A->slo / B->slo, A->slo / B->shi, A->shi / B->slo, A->shi / B->shi};
        sets(*std::min_element(c, c + 4), *std::max_element(c, c + 4));
      }
      break;
    case O_SHL:
      if (B->op == O_CONST && B->k < (u64)w) {
        u128 hi = (u128)A->uhi << B->k;
        if (hi <= maskw(w)) setu(A->ulo << B->k, (u64)hi);
        i128 l = (i128)A->slo * ((i128)1 << B->k), h = (i128)A->shi * ((i128)1 << B->k);
        if (l >= smin_w(w) && h <= smax_w(w)) sets((i64)l, (i64)h);
        x.tz = std::min<int>(w, A->tz + B->k);
      }
      break;
    case O_LSHR:
      if (B->op == O_CONST && B->k < (u64)w) setu(A->ulo >> B->k, A->uhi >> B->k);
      else setu(0, A->uhi);
      break;
    case O_ASHR:
      if (B->op == O_CONST && B->k < (u64)w) sets(A->slo >> B->k, A->shi >> B->k);
      break;
    case O_AND:
      setu(0, std::min(A->uhi, B->uhi));
      x.tz = std::max(A->tz, B->tz);
      break;
    case O_OR: {
      u64 m = A->uhi | B->uhi;
      u64 hi = m ? maskw(64 - __builtin_clzll(m)) : 0;
      setu(std::max(A->ulo, B->ulo), hi & maskw(w));
      x.tz = std::min(A->tz, B->tz);
      break;
    }
    case O_XOR: {
      u64 m = A->uhi | B->uhi;
      u64 hi = m ? maskw(64 - __builtin_clzll(m)) : 0;
      setu(0, hi & maskw(w));
      x.tz = std::min(A->tz, B->tz);
      break;
    }
    case O_CONCAT:
      setu((A->ulo << B->w) | B->ulo, (A->uhi << B->w) | B->uhi);
      if (A->ulo != A->uhi) setu(A->ulo << B->w, (A->uhi << B->w) | maskw(B->w));
      x.tz = B->tz == B->w ? B->w + A->tz : B->tz;
      break;
    case O_EXTRACT:
      if (x.k == 0 && A->uhi <= maskw(w)) setu(A->ulo, A->uhi);
      else if ((A->uhi >> x.k) <= maskw(w)) setu(A->ulo >> x.k, A->uhi >> x.k);
      if (x.k == 0 && A->slo >= smin_w(w) && A->shi <= smax_w(w)) sets(A->slo, A->shi);
      break;
    case O_ZEXT:
      setu(A->ulo, A->uhi);
      x.tz = A->tz == A->w ? w : A->tz;
      break;
    case O_SEXT: sets(A->slo, A->shi); break;
    case O_ITE:
      setu(std::min(B->ulo, C->ulo), std::max(B->uhi, C->uhi));
      sets(std::min(B->slo, C->slo), std::max(B->shi, C->shi));
      x.tz = std::min(B->tz, C->tz);
      break;
    default: break;
    }
    // cross-refine unsigned/signed
    if (w > 1) {
      u64 sb = 1ull << (w - 1);
      if (x.uhi < sb) {
        x.slo = std::max(x.slo, (i64)x.ulo);
        x.shi = std::min(x.shi, (i64)x.uhi);
      } else if (x.ulo >= sb) {
        x.slo = std::max(x.slo, sext64(x.ulo, w));
        x.shi = std::min(x.shi, sext64(x.uhi, w));
      }
      if (x.slo >= 0) {
        x.ulo = std::max(x.ulo, (u64)x.slo);
        x.uhi = std::min(x.uhi, (u64)x.shi);
      } else if (x.shi < 0) {
        x.ulo = std::max(x.ulo, (u64)x.slo & maskw(w));
        x.uhi = std::min(x.uhi, (u64)x.shi & maskw(w));
      }
    }
    if (x.ulo > x.uhi || x.slo > x.shi) { // dead expression on an infeasible path: give up precision
      x.ulo = 0; x.uhi = maskw(w); x.slo = smin_w(w); x.shi = smax_w(w);
    }
  }
  E mk(Op op, int w, E a = 0, E b = 0, E c = 0, u64 k = 0) {
    Node x{};
    x.op = op; x.w = w; x.a = a; x.b = b; x.c = c; x.k = k;
    u64 h = hsh(x) & hmask;
    while (ht[h]) {
      const Node& y = n[ht[h]];
      if (y.op == op && y.w == w && y.a == a && y.b == b && y.c == c && y.k == k) return ht[h];
      h = (h + 1) & hmask;
    }
    intervals(x);
    n.push_back(x);
    ht[h] = n.size() - 1;
    if (n.size() * 2 > ht.size()) rehash();
    return n.size() - 1;
  }
  E cst(u64 v, int w) { return mk(O_CONST, w, 0, 0, 0, v & maskw(w)); }
  E id(V v, int w) { return v.e ? v.e : cst(v.c, w); }
  V wrap(E e) {
    const Node& x = n[e];
    if (x.op == O_CONST) return V{x.k, 0};
    if (x.ulo == x.uhi && !x.undef) return V{x.ulo, 0};
    if (x.slo == x.shi && !x.undef) return V{(u64)x.slo & maskw(x.w), 0};
    return V{0, e};
  }
  bool isC(E e) const { return n[e].op == O_CONST; }

  // ---- constructors with simplification -------------------------------
  V bin(Op op, V a, V b, int w) {
    u64 m = maskw(w);
    if (!a.e && !b.e) {
      u64 x = a.c, y = b.c, r = 0;
      switch (op) {
      case O_ADD: r = x + y; break;
      case O_SUB: r = x - y; break;
      case O_MUL: r = x * y; break;
      case O_UDIV: r = y ? x / y : 0; break;
      case O_UREM: r = y ? x % y : 0; break;
      case O_SDIV: { i64 p = sext64(x, w), q = sext64(y, w); r = q == 0 ? 0 : (q == -1 ? (u64)0 - (u64)p : (u64)(p / q)); break; }
      case O_SREM: { i64 p = sext64(x, w), q = sext64(y, w); r = q == 0 ? 0 : (q == -1 ? 0 : (u64)(p % q)); break; }
      case O_SHL: r = y >= (u64)w ? 0 : x << y; break;
      case O_LSHR: r = y >= (u64)w ? 0 : x >> y; break;
      case O_ASHR: r = (u64)(sext64(x, w) >> (y >= (u64)w ? w - 1 : y)); break;
      case O_AND: r = x & y; break;
      case O_OR: r = x | y; break;
      case O_XOR: r = x ^ y; break;
      default: abort();
      }
      return V{r & m, 0};
    }
    // commutative: constant to the right
    switch (op) {
    case O_ADD: case O_MUL: case O_AND: case O_OR: case O_XOR:
      if (!a.e || (b.e && a.e > b.e)) std::swap(a, b);
      break;
    default: break;
    }
    if (!b.e) {
      u64 y = b.c;
      E   x = a.e;
      Node nx = n[x];
      switch (op) {
      case O_ADD:
        if (y == 0) return a;
        if (nx.op == O_ADD && isC(nx.b)) return bin(O_ADD, V{0, nx.a}, V{(n[nx.b].k + y) & m, 0}, w);
        if (nx.op == O_ITE && isC(nx.b) && isC(nx.c)) return ite(V{0, nx.a}, bin(op, V{n[nx.b].k, 0}, b, w), bin(op, V{n[nx.c].k, 0}, b, w), w);
        break;
      case O_SUB:
        return bin(O_ADD, a, V{(0 - y) & m, 0}, w);
      case O_MUL:
        if (y == 0) return V{0, 0};
        if (y == 1) return a;
        if ((y & (y - 1)) == 0) return bin(O_SHL, a, V{(u64)__builtin_ctzll(y), 0}, w);
        if (nx.op == O_ITE && isC(nx.b) && isC(nx.c)) return ite(V{0, nx.a}, bin(op, V{n[nx.b].k, 0}, b, w), bin(op, V{n[nx.c].k, 0}, b, w), w);
        if (nx.op == O_ADD && isC(nx.b)) return bin(O_ADD, bin(O_MUL, V{0, nx.a}, b, w), V{(n[nx.b].k * y) & m, 0}, w);
        break;
      case O_UDIV:
        if (y == 1) return a;
        if (y && (y & (y - 1)) == 0) return bin(O_LSHR, a, V{(u64)__builtin_ctzll(y), 0}, w);
        if (y && nx.op == O_MUL && isC(nx.b) && n[nx.b].k == y && (u128)n[nx.a].uhi * y <= m) return V{0, nx.a};
        break;
      case O_SDIV:
        if (y == 1) return a;
        if (y && sext64(y, w) > 0 && nx.slo >= 0) return bin(O_UDIV, a, b, w);
        if (y && nx.op == O_MUL && isC(nx.b) && n[nx.b].k == y) {
          i128 l = (i128)n[nx.a].slo * sext64(y, w), h = (i128)n[nx.a].shi * sext64(y, w);
          if (std::min(l, h) >= smin_w(w) && std::max(l, h) <= smax_w(w)) return V{0, nx.a};
        }
        break;
      case O_UREM:
        if (y == 1) return V{0, 0};
        if (y && (y & (y - 1)) == 0) return bin(O_AND, a, V{y - 1, 0}, w);
        if (y && nx.uhi < y) return a;
        break;
      case O_SREM:
        if (y && sext64(y, w) > 0 && nx.slo >= 0) return bin(O_UREM, a, b, w);
        break;
      case O_SHL:
        if (y == 0) return a;
        if (y >= (u64)w) return V{0, 0};
        if (nx.op == O_SHL && isC(nx.b)) return bin(O_SHL, V{0, nx.a}, V{n[nx.b].k + y, 0}, w);
        if (nx.op == O_ITE && isC(nx.b) && isC(nx.c)) return ite(V{0, nx.a}, bin(op, V{n[nx.b].k, 0}, b, w), bin(op, V{n[nx.c].k, 0}, b, w), w);
        if (nx.op == O_ADD && isC(nx.b)) return bin(O_ADD, bin(O_SHL, V{0, nx.a}, b, w), V{(n[nx.b].k << y) & m, 0}, w);
        if ((y & 7) == 0) return concat(extract(a, 0, w - y), w - y, V{0, 0}, y);
        break;
      case O_LSHR:
        if (y == 0) return a;
        if (y >= (u64)w) return V{0, 0};
        if ((nx.uhi >> y) == 0) return V{0, 0};
        if (nx.op == O_SHL && isC(nx.b) && n[nx.b].k == y && (n[nx.a].uhi << y >> y) == n[nx.a].uhi && n[nx.a].uhi <= (m >> y)) return V{0, nx.a};
        if (nx.op == O_LSHR && isC(nx.b)) return bin(O_LSHR, V{0, nx.a}, V{n[nx.b].k + y, 0}, w);
        return zext(extract(a, y, w - y), w - y, w);
      case O_ASHR:
        if (y == 0) return a;
        if (nx.slo >= 0) return bin(O_LSHR, a, V{std::min<u64>(y, w - 1), 0}, w);
        if (y >= (u64)w) return bin(O_ASHR, a, V{(u64)w - 1, 0}, w);
        if (nx.op == O_SHL && isC(nx.b) && n[nx.b].k == y) {
          i128 l = (i128)n[nx.a].slo << y, h = (i128)n[nx.a].shi << y;
          if (l >= smin_w(w) && h <= smax_w(w)) return V{0, nx.a};
        }
        break;
      case O_AND:
        if (y == 0) return V{0, 0};
        if (y == m) return a;
        if ((y & (y + 1)) == 0) { // low mask
          if (nx.uhi <= y) return a;
          int l = 64 - __builtin_clzll(y);
          return zext(extract(a, 0, l), l, w);
        }
        if (nx.op == O_AND && isC(nx.b)) return bin(O_AND, V{0, nx.a}, V{n[nx.b].k & y, 0}, w);
        if (nx.undef) { // keep the masked-off parts (padding) out
          if (nx.op == O_CONCAT) { int bw = n[nx.b].w; return concat(bin(O_AND, cv(nx.a), V{y >> bw, 0}, w - bw), w - bw, bin(O_AND, cv(nx.b), V{y & maskw(bw), 0}, bw), bw); }
          if (nx.op == O_OR || nx.op == O_XOR) return bin((Op)nx.op, bin(O_AND, cv(nx.a), b, w), bin(O_AND, cv(nx.b), b, w), w);
          if (nx.op == O_ZEXT) { int iw = n[nx.a].w; return zext(bin(O_AND, cv(nx.a), V{y & maskw(iw), 0}, iw), iw, w); }
        }
        if (nx.op == O_ITE && isC(nx.b) && isC(nx.c)) return ite(V{0, nx.a}, bin(op, V{n[nx.b].k, 0}, b, w), bin(op, V{n[nx.c].k, 0}, b, w), w);
        { // high mask: ~lowmask
          u64 inv = ~y & m;
          if ((inv & (inv + 1)) == 0) {
            int l = 64 - __builtin_clzll(inv);
            if (nx.tz >= l) return a;
            return concat(extract(a, l, w - l), w - l, V{0, 0}, l);
          }
        }
        break;
      case O_OR:
        if (y == 0) return a;
        if (y == m) return V{m, 0};
        if (nx.op == O_OR && isC(nx.b)) return bin(O_OR, V{0, nx.a}, V{n[nx.b].k | y, 0}, w);
        if (nx.op == O_ITE && isC(nx.b) && isC(nx.c)) return ite(V{0, nx.a}, bin(op, V{n[nx.b].k, 0}, b, w), bin(op, V{n[nx.c].k, 0}, b, w), w);
        break;
      case O_XOR:
        if (y == 0) return a;
        if (w == 1) return lnot(a);
        if (nx.op == O_XOR && isC(nx.b)) return bin(O_XOR, V{0, nx.a}, V{n[nx.b].k ^ y, 0}, w);
        if (nx.op == O_ITE && isC(nx.b) && isC(nx.c)) return ite(V{0, nx.a}, bin(op, V{n[nx.b].k, 0}, b, w), bin(op, V{n[nx.c].k, 0}, b, w), w);
        break;
      default: break;
      }
      return wrap(mk(op, w, x, cst(y, w)));
    }
    if (!a.e) { // constant on the left of a non-commutative op
      if (a.c == 0 && op != O_SUB) return V{0, 0}; // 0/x,0%x,0<<x ... (div by zero checked separately)
      return wrap(mk(op, w, cst(a.c, w), b.e));
    }
    // both symbolic
    if (a.e == b.e) {
      switch (op) {
      case O_SUB: case O_XOR: return V{0, 0};
      case O_AND: case O_OR: return a;
      default: break;
      }
    }
    Node na = n[a.e], nb = n[b.e];
    if (op == O_ADD) { // pull constants outwards
      if (na.op == O_ADD && isC(na.b)) return bin(O_ADD, bin(O_ADD, V{0, na.a}, b, w), V{n[na.b].k, 0}, w);
      if (nb.op == O_ADD && isC(nb.b)) return bin(O_ADD, bin(O_ADD, a, V{0, nb.a}, w), V{n[nb.b].k, 0}, w);
      if (na.op == O_SUB && na.b == b.e) return V{0, na.a};
      if (nb.op == O_SUB && nb.b == a.e) return V{0, nb.a};
    }
    if (op == O_SUB) {
      if (na.op == O_ADD && isC(na.b)) return bin(O_ADD, bin(O_SUB, V{0, na.a}, b, w), V{n[na.b].k, 0}, w);
      if (nb.op == O_ADD && isC(nb.b)) return bin(O_ADD, bin(O_SUB, a, V{0, nb.a}, w), V{(0 - n[nb.b].k) & m, 0}, w);
      if (na.op == O_ADD && na.a == b.e) return V{0, na.b};
      if (na.op == O_ADD && na.b == b.e) return V{0, na.a};
      // (x<<k) - (y<<k)
      if (na.op == O_SHL && nb.op == O_SHL && na.b == nb.b) return bin(O_SHL, bin(O_SUB, V{0, na.a}, V{0, nb.a}, w), V{n[na.b].k, 0}, w);
    }
    if (w == 1) {
      if (op == O_AND) { if (isNotOf(a.e, b.e)) return V{0, 0}; }
      if (op == O_OR) { if (isNotOf(a.e, b.e)) return V{1, 0}; }
    }
    if (op == O_OR && w > 1) { // disjoint concat merge: (hi:0) | zext(lo)
      for (int s = 0; s < 2; s++) {
        if (na.op == O_CONCAT && isC(na.b) && n[na.b].k == 0 && nb.op == O_ZEXT && n[nb.a].w <= n[na.b].w)
          return concat(V{0, na.a}, n[na.a].w, zext(V{0, nb.a}, n[nb.a].w, n[na.b].w), n[na.b].w);
        std::swap(na, nb);
      }
      na = n[a.e]; nb = n[b.e];
    }
    return wrap(mk(op, w, a.e, b.e));
  }
  bool isNotOf(E x, E y) {
    const Node &nx = n[x], &ny = n[y];
    if (nx.op == O_XOR && nx.w == 1 && isC(nx.b) && nx.a == y) return true;
    if (ny.op == O_XOR && ny.w == 1 && isC(ny.b) && ny.a == x) return true;
    if (nx.op == O_ULT && ny.op == O_ULE && nx.a == ny.b && nx.b == ny.a) return true;
    if (ny.op == O_ULT && nx.op == O_ULE && nx.a == ny.b && nx.b == ny.a) return true;
    if (nx.op == O_SLT && ny.op == O_SLE && nx.a == ny.b && nx.b == ny.a) return true;
    if (ny.op == O_SLT && nx.op == O_SLE && nx.a == ny.b && nx.b == ny.a) return true;
    return false;
  }
  V lnot(V a) {
    if (!a.e) return V{a.c ^ 1, 0};
    Node x = n[a.e];
    switch (x.op) {
    case O_XOR: if (isC(x.b) && n[x.b].k == 1) return V{0, x.a}; break;
    case O_ULT: return wrap(mk(O_ULE, 1, x.b, x.a));
    case O_ULE: return wrap(mk(O_ULT, 1, x.b, x.a));
    case O_SLT: return wrap(mk(O_SLE, 1, x.b, x.a));
    case O_SLE: return wrap(mk(O_SLT, 1, x.b, x.a));
    default: break;
    }
    return wrap(mk(O_XOR, 1, a.e, cst(1, 1)));
  }
  V zext(V a, int from, int to) {
    if (from == to) return a;
    if (!a.e) return a;
    Node x = n[a.e];
    if (x.op == O_ZEXT) return zext(V{0, x.a}, n[x.a].w, to);
    if (x.op == O_UNDEF) return V{0, mk(O_UNDEF, to)};
    if (x.op == O_ITE && isC(x.b) && isC(x.c)) return ite(V{0, x.a}, V{n[x.b].k, 0}, V{n[x.c].k, 0}, to);
    if (x.op == O_EXTRACT && x.k == 0 && n[x.a].w == to && n[x.a].uhi <= maskw(from)) return V{0, x.a};
    return wrap(mk(O_ZEXT, to, a.e));
  }
  V sext(V a, int from, int to) {
    if (from == to) return a;
    if (!a.e) return V{(u64)sext64(a.c, from) & maskw(to), 0};
    Node x = n[a.e];
    if (x.op == O_UNDEF) return V{0, mk(O_UNDEF, to)};
    if (from > 1 && x.slo >= 0) return zext(a, from, to);
    if (x.op == O_SEXT) return sext(V{0, x.a}, n[x.a].w, to);
    if (x.op == O_ZEXT) return zext(V{0, x.a}, n[x.a].w, to);
    if (x.op == O_ITE && isC(x.b) && isC(x.c))
      return ite(V{0, x.a}, V{(u64)sext64(n[x.b].k, from) & maskw(to), 0}, V{(u64)sext64(n[x.c].k, from) & maskw(to), 0}, to);
    if (x.op == O_EXTRACT && x.k == 0 && n[x.a].w == to && n[x.a].slo >= smin_w(from) && n[x.a].shi <= smax_w(from)) return V{0, x.a};
    return wrap(mk(O_SEXT, to, a.e));
  }
  V extract(V a, int lo, int w) { // width-w slice starting at bit lo
    if (!a.e) return V{(a.c >> lo) & maskw(w), 0};
    Node x = n[a.e];
    if (lo == 0 && x.w == w) return a;
    switch (x.op) {
    case O_UNDEF: return V{0, mk(O_UNDEF, w)};
    case O_EXTRACT: return extract(V{0, x.a}, lo + x.k, w);
    case O_ZEXT: {
      int iw = n[x.a].w;
      if (lo >= iw) return V{0, 0};
      if (lo + w <= iw) return extract(V{0, x.a}, lo, w);
      return zext(extract(V{0, x.a}, lo, iw - lo), iw - lo, w);
    }
    case O_SEXT: {
      int iw = n[x.a].w;
      if (lo + w <= iw) return extract(V{0, x.a}, lo, w);
      if (lo < iw) return sext(extract(V{0, x.a}, lo, iw - lo), iw - lo, w);
      break;
    }
    case O_CONCAT: {
      int bw = n[x.b].w;
      if (lo + w <= bw) return extract(V{n[x.b].k, isC(x.b) ? 0 : x.b}, lo, w);
      if (lo >= bw) return extract(V{n[x.a].k, isC(x.a) ? 0 : x.a}, lo - bw, w);
      V h = extract(V{n[x.a].k, isC(x.a) ? 0 : x.a}, 0, w - (bw - lo));
      V l = extract(V{n[x.b].k, isC(x.b) ? 0 : x.b}, lo, bw - lo);
      return concat(h, w - (bw - lo), l, bw - lo);
    }
    case O_ITE: {
      if (isC(x.b) || isC(x.c)) return ite(V{0, x.a}, extract(V{n[x.b].k, isC(x.b) ? 0 : x.b}, lo, w), extract(V{n[x.c].k, isC(x.c) ? 0 : x.c}, lo, w), w);
      break;
    }
    case O_AND: case O_OR: case O_XOR:
      if (isC(x.b)) return bin((Op)x.op, extract(V{0, x.a}, lo, w), V{(n[x.b].k >> lo) & maskw(w), 0}, w);
      break;
    case O_ADD: case O_SUB: case O_MUL:
      if (lo == 0 && n[x.a].op != O_VAR) {
        // narrow arithmetic when both sides narrow cheaply
        auto cheap = [&](E e) { u8 o = n[e].op; return o == O_CONST || o == O_ZEXT || o == O_SEXT || o == O_CONCAT; };
        if (cheap(x.a) && cheap(x.b)) return bin((Op)x.op, extract(V{n[x.a].k, isC(x.a) ? 0 : x.a}, 0, w), extract(V{n[x.b].k, isC(x.b) ? 0 : x.b}, 0, w), w);
      }
      break;
    default: break;
    }
    return wrap(mk(O_EXTRACT, w, a.e, 0, 0, lo));
  }
  V concat(V hi, int hw, V lo, int lw) {
    if (hw == 0) return lo;
    if (lw == 0) return hi;
    if (!hi.e && !lo.e) return V{(hi.c << lw) | lo.c, 0};
    if (!hi.e && hi.c == 0) return zext(lo, lw, hw + lw);
    if (hi.e && lo.e) {
      Node a = n[hi.e], b = n[lo.e];
      if (a.op == O_UNDEF && b.op == O_UNDEF) return V{0, mk(O_UNDEF, hw + lw)};
      if (a.op == O_EXTRACT && b.op == O_EXTRACT && a.a == b.a && a.k == b.k + b.w) return extract(V{0, a.a}, b.k, hw + lw);
      if (a.op == O_EXTRACT && a.a == lo.e && a.k == (u64)lw) { /* hi part beyond: impossible */ }
      // hi = extract of X at k, lo = concat(extract X ..., rest)
      if (b.op == O_CONCAT) {
        Node c = n[b.a];
        if (a.op == O_EXTRACT && c.op == O_EXTRACT && a.a == c.a && a.k == c.k + c.w)
          return concat(extract(V{0, a.a}, c.k, hw + c.w), hw + c.w, V{n[b.b].k, isC(b.b) ? 0 : b.b}, n[b.b].w);
      }
    }
    if (hi.e && !lo.e) {
      Node a = n[hi.e];
      if (a.op == O_CONCAT && isC(a.b)) return concat(V{n[a.a].k, isC(a.a) ? 0 : a.a}, n[a.a].w, V{(n[a.b].k << lw) | lo.c, 0}, n[a.b].w + lw);
    }
    return wrap(mk(O_CONCAT, hw + lw, id(hi, hw), id(lo, lw)));
  }
  V ite(V c, V t, V f, int w) {
    if (!c.e) return c.c ? t : f;
    if (t.e == f.e && (t.e || t.c == f.c)) return t;
    Node x = n[c.e];
    if (x.op == O_XOR && isC(x.b)) return ite(V{0, x.a}, f, t, w);
    if (w == 1) {
      if (!t.e && !f.e) return t.c ? c : lnot(c);
      if (!t.e) return t.c ? bin(O_OR, c, f, 1) : bin(O_AND, lnot(c), f, 1);
      if (!f.e) return f.c ? bin(O_OR, lnot(c), t, 1) : bin(O_AND, c, t, 1);
    }
    if (f.e && n[f.e].op == O_ITE && n[f.e].a == c.e) { E z = n[f.e].c; f = V{n[z].k, isC(z) ? 0 : z}; return ite(c, t, f, w); }
    if (t.e && n[t.e].op == O_ITE && n[t.e].a == c.e) { E z = n[t.e].b; t = V{n[z].k, isC(z) ? 0 : z}; return ite(c, t, f, w); }
    if (f.e && n[f.e].op == O_ITE && n[f.e].b == id(t, w)) { // c ? t : (d ? t : g) -> (c|d) ? t : g
      Node y = n[f.e];
      return ite(bin(O_OR, c, V{0, y.a}, 1), t, V{n[y.c].k, isC(y.c) ? 0 : y.c}, w);
    }
    return wrap(mk(O_ITE, w, c.e, id(t, w), id(f, w)));
  }
  V cv(E e) { return isC(e) ? V{n[e].k, 0} : V{0, e}; }
  V eq(V a, V b, int w) {
    if (!a.e && !b.e) return V{a.c == b.c, 0};
    if (a.e == b.e) return V{1, 0};
    if (!a.e) std::swap(a, b);
    if (!b.e) {
      u64  y = b.c;
      Node x = n[a.e];
      if (!x.undef && (y < x.ulo || y > x.uhi || sext64(y, w) < x.slo || sext64(y, w) > x.shi)) return V{0, 0};
      if (w == 1) return y ? a : lnot(a);
      if (x.tz && (y & maskw(x.tz))) return V{0, 0};
      switch (x.op) {
      case O_ADD: if (isC(x.b)) return eq(cv(x.a), V{(y - n[x.b].k) & maskw(w), 0}, w); break;
      case O_XOR: if (isC(x.b)) return eq(cv(x.a), V{y ^ n[x.b].k, 0}, w); break;
      case O_SUB: if (y == 0) return eq(cv(x.a), cv(x.b), w); if (isC(x.a)) return eq(cv(x.b), V{(n[x.a].k - y) & maskw(w), 0}, w); break;
      case O_ZEXT: { int iw = n[x.a].w; if (y > maskw(iw)) return V{0, 0}; return eq(cv(x.a), V{y, 0}, iw); }
      case O_SEXT: { int iw = n[x.a].w; if ((u64)(sext64(y & maskw(iw), iw)) == (u64)sext64(y, w)) return eq(cv(x.a), V{y & maskw(iw), 0}, iw); return V{0, 0}; }
      case O_SHL: if (isC(x.b)) { u64 s = n[x.b].k; if (n[x.a].uhi <= (maskw(w) >> s)) return (y & maskw(s)) ? V{0, 0} : eq(cv(x.a), V{y >> s, 0}, w); } break;
      case O_MUL: if (isC(x.b)) { u64 q = n[x.b].k; if ((u128)n[x.a].uhi * q <= maskw(w)) return (y % q) ? V{0, 0} : eq(cv(x.a), V{y / q, 0}, w); } break;
      case O_CONCAT: { int bw = n[x.b].w; return bin(O_AND, eq(cv(x.a), V{y >> bw, 0}, n[x.a].w), eq(cv(x.b), V{y & maskw(bw), 0}, bw), 1); }
      case O_ITE:
        if (isC(x.b) || isC(x.c)) return ite(cv(x.a), eq(cv(x.b), b, w), eq(cv(x.c), b, w), 1);
        break;
      default: break;
      }
      return wrap(mk(O_EQ, 1, a.e, cst(y, w)));
    }
    Node x = n[a.e], y = n[b.e];
    if (!x.undef && !y.undef && (x.uhi < y.ulo || y.uhi < x.ulo || x.shi < y.slo || y.shi < x.slo)) return V{0, 0};
    if (w == 1) return lnot(bin(O_XOR, a, b, 1));
    if (x.op == O_ZEXT && y.op == O_ZEXT && n[x.a].w == n[y.a].w) return eq(cv(x.a), cv(y.a), n[x.a].w);
    if (x.op == O_SEXT && y.op == O_SEXT && n[x.a].w == n[y.a].w) return eq(cv(x.a), cv(y.a), n[x.a].w);
    if (x.op == O_ADD && y.op == O_ADD && isC(x.b) && x.b == y.b) return eq(cv(x.a), cv(y.a), w);
    if (a.e > b.e) std::swap(a, b);
    return wrap(mk(O_EQ, 1, a.e, b.e));
  }
  V ult(V a, V b, int w) {
    if (!a.e && !b.e) return V{a.c < b.c, 0};
    if (a.e == b.e) return V{0, 0};
    E x = id(a, w), y = id(b, w);
    if (!n[x].undef && !n[y].undef) {
      if (n[x].uhi < n[y].ulo) return V{1, 0};
      if (n[x].ulo >= n[y].uhi) return V{0, 0};
    }
    if (w == 1) return bin(O_AND, lnot(a), b, 1);
    if (!b.e && b.c == 1) return eq(a, V{0, 0}, w);
    if (!a.e && a.c == 0) return lnot(eq(b, V{0, 0}, w));
    if (V r; cmpNarrow(x, y, r, O_ULT)) return r;
    if (V r; cmpIte(x, y, r, O_ULT)) return r;
    return wrap(mk(O_ULT, 1, x, y));
  }
  V ule(V a, V b, int w) { return lnot(ult(b, a, w)); }
  V slt(V a, V b, int w) {
    if (!a.e && !b.e) return V{sext64(a.c, w) < sext64(b.c, w), 0};
    if (a.e == b.e) return V{0, 0};
    E x = id(a, w), y = id(b, w);
    if (!n[x].undef && !n[y].undef) {
      if (n[x].shi < n[y].slo) return V{1, 0};
      if (n[x].slo >= n[y].shi) return V{0, 0};
      if (n[x].slo >= 0 && n[y].slo >= 0) return ult(a, b, w);
    }
    if (V r; cmpIte(x, y, r, O_SLT)) return r;
    if (n[x].op == O_SEXT && n[y].op == O_SEXT && n[n[x].a].w == n[n[y].a].w) return slt(cv(n[x].a), cv(n[y].a), n[n[x].a].w);
    return wrap(mk(O_SLT, 1, x, y));
  }
  V sle(V a, V b, int w) { return lnot(slt(b, a, w)); }
  bool cmpNarrow(E x, E y, V& r, Op) {
    if (n[x].op == O_ZEXT && n[y].op == O_ZEXT && n[n[x].a].w == n[n[y].a].w) { r = ult(cv(n[x].a), cv(n[y].a), n[n[x].a].w); return true; }
    if (n[x].op == O_ZEXT && isC(y)) {
      int iw = n[n[x].a].w;
      if (n[y].k > maskw(iw)) { r = V{1, 0}; return true; }
      r = ult(cv(n[x].a), V{n[y].k, 0}, iw);
      return true;
    }
    if (n[y].op == O_ZEXT && isC(x)) {
      int iw = n[n[y].a].w;
      if (n[x].k > maskw(iw)) { r = V{0, 0}; return true; }
      r = ult(V{n[x].k, 0}, cv(n[y].a), iw);
      return true;
    }
    return false;
  }
  // comparisons of ite(const,const) with a constant
  bool cmpIte(E x, E y, V& r, Op op) {
    Node a = n[x], b = n[y];
    auto cmp = [&](V p, V q, int w) { return op == O_ULT ? ult(p, q, w) : slt(p, q, w); };
    if (isC(y) && a.op == O_ITE && (isC(a.b) || isC(a.c))) { r = ite(cv(a.a), cmp(cv(a.b), cv(y), a.w), cmp(cv(a.c), cv(y), a.w), 1); return true; }
    if (isC(x) && b.op == O_ITE && (isC(b.b) || isC(b.c))) { r = ite(cv(b.a), cmp(cv(x), cv(b.b), b.w), cmp(cv(x), cv(b.c), b.w), 1); return true; }
    return false;
  }
  V undef(int w) { return V{0, mk(O_UNDEF, w)}; }
  bool isUndef(V v) const { return v.e && n[v.e].undef; }

  E newVar(const std::string& name, int w, bool sgn, u64 lo, u64 hi) {
    // variables are identified by (name, width, range)
    for (size_t i = 0; i < vars.size(); i++)
      if (vars[i].name == name && vars[i].w == w && vars[i].sgn == sgn && (sgn ? (vars[i].slo == (i64)lo && vars[i].shi == (i64)hi) : (vars[i].ulo == lo && vars[i].uhi == hi)))
        return mk(O_VAR, w, 0, 0, 0, i);
    VarInfo vi;
    vi.name = name; vi.w = w; vi.sgn = sgn;
    if (sgn) { vi.slo = (i64)lo; vi.shi = (i64)hi; vi.ulo = 0; vi.uhi = maskw(w); }
    else { vi.ulo = lo; vi.uhi = hi; vi.slo = smin_w(w); vi.shi = smax_w(w); }
    vars.push_back(vi);
    return mk(O_VAR, w, 0, 0, 0, vars.size() - 1);
  }

  // ---- evaluation -------------------------------------------------------
  void evalBegin() {
    if (stamp.size() < n.size() + 1) { stamp.resize(n.size() * 2 + 16, 0); val.resize(stamp.size()); }
    curStamp++;
  }
  u64 evalRec(E e, const std::vector<u64>& m) {
    if (e >= stamp.size()) { stamp.resize(n.size() * 2 + 16, 0); val.resize(stamp.size()); }
    if (stamp[e] == curStamp) return val[e];
    const Node x = n[e];
    u64  r = 0;
    switch (x.op) {
    case O_CONST: return x.k;
    case O_VAR: r = x.k < m.size() ? m[x.k] : (vars[x.k].sgn ? (u64)vars[x.k].slo : vars[x.k].ulo) & maskw(x.w); break;
    case O_UNDEF: r = 0; break;
    case O_ITE: r = evalRec(x.a, m) ? evalRec(x.b, m) : evalRec(x.c, m); break;
    case O_ZEXT: r = evalRec(x.a, m); break;
    case O_SEXT: r = (u64)sext64(evalRec(x.a, m), n[x.a].w) & maskw(x.w); break;
    case O_EXTRACT: r = (evalRec(x.a, m) >> x.k) & maskw(x.w); break;
    case O_CONCAT: r = (evalRec(x.a, m) << n[x.b].w) | evalRec(x.b, m); break;
    case O_EQ: r = evalRec(x.a, m) == evalRec(x.b, m); break;
    case O_ULT: r = evalRec(x.a, m) < evalRec(x.b, m); break;
    case O_ULE: r = evalRec(x.a, m) <= evalRec(x.b, m); break;
    case O_SLT: { int w = n[x.a].w; r = sext64(evalRec(x.a, m), w) < sext64(evalRec(x.b, m), w); break; }
    case O_SLE: { int w = n[x.a].w; r = sext64(evalRec(x.a, m), w) <= sext64(evalRec(x.b, m), w); break; }
    default: r = bin((Op)x.op, V{evalRec(x.a, m), 0}, V{evalRec(x.b, m), 0}, x.w).c;
    }
    stamp[e] = curStamp;
    val[e]   = r;
    return r;
  }
};

// ---- Z3 lowering ----------------------------------------------------------
struct Lower {
  ExprPool&            p;
  Z3_context           c;
  std::vector<Z3_ast>  memo;
  std::vector<Z3_ast>  vars;
  Z3_sort              bvs[65];
  Lower(ExprPool& p_) : p(p_) {
    Z3_config cfg = Z3_mk_config();
    c             = Z3_mk_context(cfg); // not ref-counted: asts live as long as the context
    Z3_del_config(cfg);
    for (int i = 1; i <= 64; i++) bvs[i] = Z3_mk_bv_sort(c, i);
  }
  Z3_ast bv(E e) { // as bit-vector, also for width 1
    Z3_ast a = go(e);
    if (p.n[e].w == 1) return Z3_mk_ite(c, a, Z3_mk_unsigned_int64(c, 1, bvs[1]), Z3_mk_unsigned_int64(c, 0, bvs[1]));
    return a;
  }
  Z3_ast var(u32 idx) {
    if (vars.size() <= idx) vars.resize(idx + 1, nullptr);
    if (!vars[idx]) {
      std::string nm = "v" + std::to_string(idx);
      vars[idx]      = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.c_str()), p.vars[idx].w == 1 ? Z3_mk_bool_sort(c) : bvs[p.vars[idx].w]);
    }
    return vars[idx];
  }
  // ---- linear-integer lowering: exact when interval analysis excludes wrap-around; nullptr otherwise
  std::vector<Z3_ast>  ivars;
  std::vector<Z3_ast>  memoI[3]; // signed value, unsigned value, boolean
  std::vector<u8>      seenI[3];
  Z3_sort              isort = nullptr;
  Z3_ast ivar(u32 idx) {
    if (!isort) isort = Z3_mk_int_sort(c);
    if (ivars.size() <= idx) ivars.resize(idx + 1, nullptr);
    if (!ivars[idx]) ivars[idx] = Z3_mk_const(c, Z3_mk_string_symbol(c, ("i" + std::to_string(idx)).c_str()), isort);
    return ivars[idx];
  }
  Z3_ast ic(i64 v) { if (!isort) isort = Z3_mk_int_sort(c); return Z3_mk_int64(c, v, isort); }
  Z3_ast icu(u64 v) { if (!isort) isort = Z3_mk_int_sort(c); return Z3_mk_unsigned_int64(c, v, isort); }
  Z3_ast li(E e, int mode) {
    if (mode == 1 && p.n[e].slo >= 0 && p.n[e].w > 1) mode = 0;
    if (seenI[mode].size() <= e) { seenI[mode].resize(p.n.size() + 1024, 0); memoI[mode].resize(seenI[mode].size(), nullptr); }
    if (seenI[mode][e]) return memoI[mode][e];
    Z3_ast r = mode == 2 ? lb0(e) : li0(e, mode);
    seenI[mode][e] = 1;
    memoI[mode][e] = r;
    return r;
  }
  Z3_ast li0(E e, int mode) {
    const Node x = p.n[e];
    auto nn = [&](E q) { return p.n[q].slo >= 0 && p.n[q].w > 1; };
    if (x.w == 1 && x.op != O_CONST) {
      Z3_ast b = li(e, 2);
      return b ? Z3_mk_ite(c, b, ic(mode ? 1 : -1), ic(0)) : nullptr;
    }
    switch (x.op) {
    case O_CONST: return mode ? icu(x.k) : ic(sext64(x.k, x.w));
    case O_VAR: {
      bool sg = p.vars[x.k].sgn;
      if ((mode == 0) == sg || nn(e)) return ivar(x.k);
      return nullptr;
    }
    case O_ZEXT: return li(x.a, 1);
    case O_SEXT: if (mode == 0 || nn(e)) return li(x.a, 0); return nullptr;
    case O_ADD: case O_SUB: {
      const Node A = p.n[x.a], B = p.n[x.b];
      if (mode == 0) {
        i128 lo = x.op == O_ADD ? (i128)A.slo + B.slo : (i128)A.slo - B.shi, hi = x.op == O_ADD ? (i128)A.shi + B.shi : (i128)A.shi - B.slo;
        if (lo < smin_w(x.w) || hi > smax_w(x.w)) return nullptr;
      } else {
        if (x.op == O_ADD && (u128)A.uhi + B.uhi > maskw(x.w)) return nullptr;
        if (x.op == O_SUB && A.ulo < B.uhi) return nullptr;
      }
      Z3_ast ab[2] = {li(x.a, mode), li(x.b, mode)};
      if (!ab[0] || !ab[1]) return nullptr;
      return x.op == O_ADD ? Z3_mk_add(c, 2, ab) : Z3_mk_sub(c, 2, ab);
    }
    case O_MUL: case O_SHL: {
      if (!p.isC(x.b)) return nullptr;
      const Node A = p.n[x.a];
      i128 k = x.op == O_SHL ? ((i128)1 << p.n[x.b].k) : (mode == 0 ? (i128)sext64(p.n[x.b].k, x.w) : (i128)p.n[x.b].k);
      if (k > INT32_MAX || k < INT32_MIN) return nullptr;
      i128 l = (mode == 0 ? (i128)A.slo : (i128)A.ulo) * k, h = (mode == 0 ? (i128)A.shi : (i128)A.uhi) * k;
      if (l > h) std::swap(l, h);
      if (mode == 0 ? (l < smin_w(x.w) || h > smax_w(x.w)) : (l < 0 || h > (i128)maskw(x.w))) return nullptr;
      Z3_ast a = li(x.a, mode);
      if (!a) return nullptr;
      Z3_ast ab[2] = {ic((i64)k), a};
      return Z3_mk_mul(c, 2, ab);
    }
    case O_ITE: {
      Z3_ast b = li(x.a, 2), t = li(x.b, mode), f = li(x.c, mode);
      if (!b || !t || !f) return nullptr;
      return Z3_mk_ite(c, b, t, f);
    }
    case O_EXTRACT: {
      const Node A = p.n[x.a];
      if (x.k) return nullptr;
      if (mode == 0) return A.slo >= smin_w(x.w) && A.shi <= smax_w(x.w) ? li(x.a, 0) : nullptr;
      return A.uhi <= maskw(x.w) ? li(x.a, 1) : nullptr;
    }
    case O_CONCAT: {
      if (mode == 0 && !nn(e)) return nullptr;
      int bw = p.n[x.b].w;
      if (bw > 31) return nullptr;
      Z3_ast h = li(x.a, 1), l = li(x.b, 1);
      if (!h || !l) return nullptr;
      Z3_ast m[2] = {ic(1ll << bw), h};
      Z3_ast ab[2] = {Z3_mk_mul(c, 2, m), l};
      return Z3_mk_add(c, 2, ab);
    }
    case O_UDIV: case O_UREM: case O_LSHR: {
      if (!p.isC(x.b)) return nullptr;
      u64 k = x.op == O_LSHR ? 1ull << p.n[x.b].k : p.n[x.b].k;
      if (!k || k > INT32_MAX) return nullptr;
      Z3_ast a = li(x.a, 1);
      if (!a) return nullptr;
      return x.op == O_UREM ? Z3_mk_mod(c, a, ic(k)) : Z3_mk_div(c, a, ic(k));
    }
    default: return nullptr;
    }
  }
  Z3_ast lb0(E e) {
    const Node x = p.n[e];
    switch (x.op) {
    case O_CONST: return x.k ? Z3_mk_true(c) : Z3_mk_false(c);
    case O_VAR: return Z3_mk_eq(c, ivar(x.k), ic(1));
    case O_EQ: {
      if (p.n[x.a].w == 1) { Z3_ast a = li(x.a, 2), b = li(x.b, 2); return a && b ? Z3_mk_eq(c, a, b) : nullptr; }
      Z3_ast a = li(x.a, 0), b = a ? li(x.b, 0) : nullptr;
      if (!a || !b) { a = li(x.a, 1); b = a ? li(x.b, 1) : nullptr; }
      return a && b ? Z3_mk_eq(c, a, b) : nullptr;
    }
    case O_ULT: case O_ULE: {
      if (p.n[x.a].w == 1) return nullptr;
      Z3_ast a = li(x.a, 1), b = a ? li(x.b, 1) : nullptr;
      return a && b ? (x.op == O_ULT ? Z3_mk_lt(c, a, b) : Z3_mk_le(c, a, b)) : nullptr;
    }
    case O_SLT: case O_SLE: {
      if (p.n[x.a].w == 1) return nullptr;
      Z3_ast a = li(x.a, 0), b = a ? li(x.b, 0) : nullptr;
      return a && b ? (x.op == O_SLT ? Z3_mk_lt(c, a, b) : Z3_mk_le(c, a, b)) : nullptr;
    }
    case O_AND: case O_OR: case O_XOR: {
      Z3_ast ab[2] = {li(x.a, 2), li(x.b, 2)};
      if (!ab[0] || !ab[1]) return nullptr;
      return x.op == O_AND ? Z3_mk_and(c, 2, ab) : x.op == O_OR ? Z3_mk_or(c, 2, ab) : p.isC(x.b) ? Z3_mk_not(c, ab[0]) : Z3_mk_xor(c, ab[0], ab[1]);
    }
    case O_ITE: {
      Z3_ast b = li(x.a, 2), t = li(x.b, 2), f = li(x.c, 2);
      return b && t && f ? Z3_mk_ite(c, b, t, f) : nullptr;
    }
    case O_EXTRACT: {
      if (x.k == 0 && p.n[x.a].uhi <= 1) { Z3_ast a = li(x.a, 1); return a ? Z3_mk_eq(c, a, ic(1)) : nullptr; }
      return nullptr;
    }
    default: return nullptr;
    }
  }
  Z3_ast go(E e) {
    if (memo.size() <= e) memo.resize(p.n.size() + 1024, nullptr);
    if (memo[e]) return memo[e];
    const Node x = p.n[e];
    Z3_ast     r = nullptr;
    switch (x.op) {
    case O_CONST: r = x.w == 1 ? (x.k ? Z3_mk_true(c) : Z3_mk_false(c)) : Z3_mk_unsigned_int64(c, x.k, bvs[x.w]); break;
    case O_VAR: r = var(x.k); break;
    case O_UNDEF: r = x.w == 1 ? Z3_mk_false(c) : Z3_mk_unsigned_int64(c, 0, bvs[x.w]); break;
    case O_ITE: r = Z3_mk_ite(c, go(x.a), go(x.b), go(x.c)); break;
    case O_EQ: r = Z3_mk_eq(c, go(x.a), go(x.b)); break;
    case O_ULT: r = Z3_mk_bvult(c, bv(x.a), bv(x.b)); break;
    case O_ULE: r = Z3_mk_bvule(c, bv(x.a), bv(x.b)); break;
    case O_SLT: r = Z3_mk_bvslt(c, bv(x.a), bv(x.b)); break;
    case O_SLE: r = Z3_mk_bvsle(c, bv(x.a), bv(x.b)); break;
    case O_ZEXT:
      if (p.n[x.a].w == 1) r = Z3_mk_ite(c, go(x.a), Z3_mk_unsigned_int64(c, 1, bvs[x.w]), Z3_mk_unsigned_int64(c, 0, bvs[x.w]));
      else r = Z3_mk_zero_ext(c, x.w - p.n[x.a].w, go(x.a));
      break;
    case O_SEXT:
      if (p.n[x.a].w == 1) r = Z3_mk_ite(c, go(x.a), Z3_mk_unsigned_int64(c, maskw(x.w), bvs[x.w]), Z3_mk_unsigned_int64(c, 0, bvs[x.w]));
      else r = Z3_mk_sign_ext(c, x.w - p.n[x.a].w, go(x.a));
      break;
    case O_EXTRACT:
      r = Z3_mk_extract(c, x.k + x.w - 1, x.k, bv(x.a));
      if (x.w == 1) r = Z3_mk_eq(c, r, Z3_mk_unsigned_int64(c, 1, bvs[1]));
      break;
    case O_CONCAT: r = Z3_mk_concat(c, bv(x.a), bv(x.b)); break;
    default:
      if (x.w == 1) {
        Z3_ast ab[2] = {go(x.a), go(x.b)};
        switch (x.op) {
        case O_AND: r = Z3_mk_and(c, 2, ab); break;
        case O_OR: r = Z3_mk_or(c, 2, ab); break;
        case O_XOR: case O_ADD: case O_SUB: r = p.isC(x.b) && p.n[x.b].k == 1 ? Z3_mk_not(c, ab[0]) : Z3_mk_xor(c, ab[0], ab[1]); break;
        case O_MUL: r = Z3_mk_and(c, 2, ab); break;
        default: fprintf(stderr, "lower: op %d on i1\n", x.op); abort();
        }
      } else {
        Z3_ast a = go(x.a), b = go(x.b);
        switch (x.op) {
        case O_ADD: r = Z3_mk_bvadd(c, a, b); break;
        case O_SUB: r = Z3_mk_bvsub(c, a, b); break;
        case O_MUL: r = Z3_mk_bvmul(c, a, b); break;
        case O_UDIV: r = Z3_mk_bvudiv(c, a, b); break;
        case O_SDIV: r = Z3_mk_bvsdiv(c, a, b); break;
        case O_UREM: r = Z3_mk_bvurem(c, a, b); break;
        case O_SREM: r = Z3_mk_bvsrem(c, a, b); break;
        case O_SHL: r = Z3_mk_bvshl(c, a, b); break;
        case O_LSHR: r = Z3_mk_bvlshr(c, a, b); break;
        case O_ASHR: r = Z3_mk_bvashr(c, a, b); break;
        case O_AND: r = Z3_mk_bvand(c, a, b); break;
        case O_OR: r = Z3_mk_bvor(c, a, b); break;
        case O_XOR: r = Z3_mk_bvxor(c, a, b); break;
        default: fprintf(stderr, "lower: op %d\n", x.op); abort();
        }
      }
    }
    memo[e] = r;
    return r;
  }
};
