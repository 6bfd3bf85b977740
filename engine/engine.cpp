// gsym: a bounded symbolic executor for LLVM IR (LLVM 18) that decides
// assertions over all values of the symbolic inputs with Z3.
#include "expr.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <atomic>
#include <chrono>
#include <cmath>
#include <map>
#include <set>
#include <unordered_map>
#include <deque>
#include <functional>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
using namespace llvm;

// ---------------------------------------------------------------- options
static std::string optOut = "/tmp/gsym", optEntry = "harness_main", optSrcPrefix = "/repo/include/";
static int         optJobs = 8;
static double      optTime = 600;
static u64         optBudget = 30000000, optSeed = 1, optConfirmNs = 15000000000ull;
static int         optMaxTraces = 400, optMaxFindings = 12, optSolver = 0, optVerbose = 0;
static u64         optArena = 1ull << 28;

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static double tStart;

// ---------------------------------------------------------------- shared
struct Shared {
  std::atomic<int>  tokens, active, stop, findings, incomplete, traces, procs, unsupported, fatal;
  std::atomic<u64>  paths, pathsInfeasible, forks, instrs, symBranch, implied, queries, sat, unsat, unknown, solverNs, asserts, assertsConst, assertsQuery, assertsModel,
      picks, itesLoads, knownHits, modelHits, constr, maxVars, cacheHits, domain, evalUnsat, confirmNs, queriesLia, maxQueryNs;
  std::atomic<u8>   cover[256];
  u8                exec[1]; // executed-instruction bits (size numIns)
};
static Shared* sh;

// ---------------------------------------------------------------- bytecode
enum BOp : u16 {
  B_MOV, B_BIN, B_ICMP, B_ZEXT, B_SEXT, B_TRUNC, B_SELECT, B_LOAD, B_STORE, B_GEP, B_BR, B_CONDBR, B_SWITCH, B_CALL, B_RET, B_UNREACH, B_ALLOCA, B_FBIN, B_FCMP, B_FNEG,
  B_FPTOSI, B_FPTOUI, B_SITOFP, B_UITOFP, B_FPEXT, B_FPTRUNC, B_LPAD, B_RESUME, B_ARMW, B_CMPXCHG, B_FREEZE, B_UNSUP, B_INTRIN, B_I128, B_NOP
};
struct Ins {
  u16 op;
  u8  w, w2;
  int sub;
  int dst, a, b, c;
  int aux;
};
struct GepInfo { u64 off; std::vector<std::pair<int, u64>> terms; std::vector<int> ws; };
struct EdgeInfo { int target; std::vector<std::pair<int, int>> copies; };
struct CallInfo {
  int              callee = -1; // function index or -1
  int              calleeOp = 0;
  int              builtin = 0;
  std::vector<int> args;
  std::vector<u8>  argw;
  int              nret = 0;
  int              normal = -1, unwind = -1; // edges
  std::string      name;
};
struct SwitchInfo { std::vector<std::pair<u64, int>> cases; int def; };
struct LpadInfo { bool cleanup; std::vector<const GlobalVariable*> catches; std::vector<bool> isCatch; };
struct Fn {
  Function*                  f = nullptr;
  bool                       translated = false;
  int                        nslots = 0;
  std::vector<int>           argSlots; // first slots
  std::vector<Ins>           code;
  std::vector<u32>           gid; // global instruction number per ins
  std::vector<const Instruction*> src;
};

static LLVMContext                                ctx;
static std::unique_ptr<Module>                    mod;
static const DataLayout*                          DL;
static std::vector<Fn>                            fns;
static std::unordered_map<const Function*, int>   fnIndex;
static std::vector<V>                             consts;
static std::vector<GepInfo>                       geps;
static std::vector<EdgeInfo>                      edges;
static std::vector<CallInfo>                      calls;
static std::vector<SwitchInfo>                    switches;
static std::vector<LpadInfo>                      lpads;
static std::vector<std::vector<int>>              lists;
static std::vector<std::string>                   msgs;
static std::vector<const Instruction*>            allIns;
static std::unordered_map<const GlobalVariable*, u64> gaddr;
static std::unordered_map<const GlobalVariable*, int> tiId;
static std::unordered_map<u64, const GlobalVariable*> addrTi;

static ExprPool P;
static Lower*   Z;

static const u64 FBASE = 0x200000000000ull;
static const u64 ABASE = 0x100000000000ull;
static const u64 SBASE = 0x300000000000ull;
static const u64 MBASE = 0x500000000000ull;

// ---------------------------------------------------------------- memory
static u8*  arena  = (u8*)ABASE;
static u32* shadow = (u32*)SBASE; // per byte: 0 concrete, else expr<<3|byte
static u32* gran   = (u32*)MBASE; // per 16 bytes: object index
static u64  bumpPtr;              // next free arena address

enum OKind : u8 { K_GLOBAL, K_STACK, K_HEAP, K_EXC };
struct Obj { u64 base, size; u8 kind; bool alive; u32 site; };
static std::vector<Obj> objs;

struct Undo { u64 addr; u64 data; u32 sh[8]; }; // addr==0: object aliveness (data = obj<<1|alive)
static std::vector<Undo> undo;
static u64               undoLimit = 0; // log writes to addresses below this

static void logWord(u64 a) {
  Undo u;
  u.addr = a;
  memcpy(&u.data, (void*)a, 8);
  memcpy(u.sh, shadow + (a - ABASE), 32);
  undo.push_back(u);
}
static inline void touch(u64 a, u64 n) {
  if (a < undoLimit)
    for (u64 p = a & ~7ull; p < a + n; p += 8) logWord(p);
}
static E undef8;
static u64 allocMem(u64 size, OKind kind, bool init = true, u64 align = 16) {
  u64 a = bumpPtr;
  if (align > 16) a = (a + align - 1) & ~(align - 1);
  u64 sz = (size + 15) & ~15ull;
  if (a + sz + 32 > ABASE + optArena) return 0;
  u32 id = objs.size();
  // clear granules between the bump pointer and a (redzone), then map
  for (u64 p = bumpPtr; p < a; p += 16) gran[(p - ABASE) >> 4] = 0;
  for (u64 p = a; p < a + sz; p += 16) gran[(p - ABASE) >> 4] = id;
  gran[(a + sz - ABASE) >> 4] = 0;
  if (init) {
    memset((void*)a, 0xAA, sz);
    u32 s = (undef8 << 3);
    u32* q = shadow + (a - ABASE);
    for (u64 i = 0; i < sz; i++) q[i] = s;
  } else {
    memset((void*)a, 0, sz);
    memset(shadow + (a - ABASE), 0, sz * 4);
  }
  if (sz == 0) gran[(a - ABASE) >> 4] = 0;
  objs.push_back(Obj{a, size, kind, true, 0});
  bumpPtr = a + std::max<u64>(sz, 16) + 16;
  if (sz == 0) { // zero-size: unique address, no accessible byte
    gran[(a - ABASE) >> 4] = id;
    gran[(a + 16 - ABASE) >> 4] = 0;
  }
  return a;
}
static inline int objAt(u64 a) {
  if (a < ABASE || a >= bumpPtr) return 0;
  return gran[(a - ABASE) >> 4];
}
static inline bool okAccess(u64 a, u64 n) {
  int o = objAt(a);
  if (!o) return false;
  const Obj& ob = objs[o];
  return ob.alive && a + n <= ob.base + ob.size;
}
static void setDead(int o) {
  Undo u{};
  u.addr = 0;
  u.data = ((u64)o << 1) | objs[o].alive;
  undo.push_back(u);
  objs[o].alive = false;
}
static void setAlive(int o) {
  Undo u{};
  u.addr = 0;
  u.data = ((u64)o << 1) | objs[o].alive;
  undo.push_back(u);
  objs[o].alive = true;
}
static V byteAt(u64 a) {
  u32 s = shadow[a - ABASE];
  if (!s) return V{*(u8*)a, 0};
  return P.extract(V{0, s >> 3}, (s & 7) * 8, 8);
}
static V loadMem(u64 a, int bits) {
  int  n = (bits + 7) / 8;
  u32* s = shadow + (a - ABASE);
  bool sym = false;
  for (int i = 0; i < n; i++) sym |= s[i] != 0;
  if (!sym) {
    u64 v = 0;
    memcpy(&v, (void*)a, n);
    return V{v & maskw(bits), 0};
  }
  if (s[0] && (s[0] & 7) == 0 && P.n[s[0] >> 3].w == n * 8) {
    bool all = true;
    for (int i = 1; i < n; i++) all &= s[i] == s[0] + i;
    if (all) return bits == n * 8 ? V{0, s[0] >> 3} : P.extract(V{0, s[0] >> 3}, 0, bits);
  }
  V r = byteAt(a);
  for (int i = 1; i < n; i++) r = P.concat(byteAt(a + i), 8, r, 8 * i);
  return bits == n * 8 ? r : P.extract(r, 0, bits);
}
static void storeMem(u64 a, V v, int bits) {
  int n = (bits + 7) / 8;
  touch(a, n);
  if (v.e && bits != n * 8) v = P.zext(v, bits, n * 8);
  u32* s = shadow + (a - ABASE);
  if (!v.e) {
    memcpy((void*)a, &v.c, n);
    memset(s, 0, n * 4);
  } else {
    memset((void*)a, 0, n);
    if (P.n[v.e].op == O_UNDEF) { for (int i = 0; i < n; i++) s[i] = undef8 << 3; }
    else for (int i = 0; i < n; i++) s[i] = (v.e << 3) | i;
  }
}

// ---------------------------------------------------------------- state
struct Frame {
  int fn;
  u32 base, pc;
  u32 stackMark; // index in stackObjs
  int call;      // call index in the caller
};
struct ExcInfo { u64 obj; u64 ti; u64 dtor; int handlers; };
struct Obs { u32 name; V v; int w; };

struct State {
  std::vector<Frame>   frames;
  std::vector<V>       regs;
  u32                  top = 0;
  std::vector<u32>     stackObjs;
  std::vector<ExcInfo> excs;
  std::vector<u64>     caught;
  std::vector<Obs>     obs;
  std::vector<u32>     pathVars;
  u64                  curExc = 0;
  int                  curSel = 0;
  i64                  live = 0;
  u64                  steps = 0;
};
static State                       S;
static std::vector<E>              pcs;
static std::unordered_map<E, int>  known; // cond -> +1 true
static std::vector<E>              knownTrail;
static std::vector<u64>            model;
static std::vector<std::string>    names;
static std::unordered_map<std::string, u32> nameIdx;

struct Choice {
  State                s;
  size_t               undoPos, nobjs, npcs, nknown;
  u64                  bump;
  E                    cond; // added on resumption
  std::vector<u64>     model;
  u64                  prevUndoLimit;
};
static std::deque<Choice> choices;
static std::deque<std::vector<u64>> pool;

// ---------------------------------------------------------------- solver
static Z3_solver zsL, zsB; // integer / bit-vector
struct QRes { int r; std::vector<std::pair<u32, u64>> m; };
struct VecHash { size_t operator()(const std::vector<u32>& v) const { u64 h = v.size(); for (u32 x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ull, h ^= h >> 29; return h; } };
static std::unordered_map<std::vector<u32>, QRes, VecHash> qcache;
static void solverInit() {
  Z = new Lower(P);
  zsL = Z3_mk_solver_for_logic(Z->c, Z3_mk_string_symbol(Z->c, "QF_LIA"));
  if (optSolver == 2) zsL = Z3_mk_simple_solver(Z->c);
  Z3_solver_inc_ref(Z->c, zsL);
  zsB = optSolver == 1 ? Z3_mk_simple_solver(Z->c) : Z3_mk_solver_for_logic(Z->c, Z3_mk_string_symbol(Z->c, "QF_BV"));
  Z3_solver_inc_ref(Z->c, zsB);
}
static void varsOf(E e, std::vector<u32>& out, std::vector<u8>& seen) {
  if (seen.size() <= e) seen.resize(P.n.size() + 1, 0);
  if (seen[e]) return;
  seen[e] = 1;
  const Node x = P.n[e];
  if (x.op == O_VAR) { out.push_back(x.k); return; }
  if (x.a) varsOf(x.a, out, seen);
  if (x.b) varsOf(x.b, out, seen);
  if (x.c) varsOf(x.c, out, seen);
}
// 1 sat, 0 unsat, -1 unknown.  Only the constraints connected to `cond` matter: the current model satisfies the rest.
static void fullModel(std::vector<u64>& m) { // variables the model doesn't mention have their smallest value, as in evalRec
  for (size_t i = m.size(); i < P.vars.size(); i++) m.push_back((P.vars[i].sgn ? (u64)P.vars[i].slo : P.vars[i].ulo) & maskw(P.vars[i].w));
}
static int query(E cond, std::vector<u64>* out) {
  auto t0 = std::chrono::steady_clock::now();
  static std::vector<u32> slice;
  slice.clear();
  u64 vs = P.n[cond].vs;
  std::vector<u8> in(pcs.size(), 0);
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < pcs.size(); i++)
      if (!in[i] && (P.n[pcs[i]].vs & vs)) { in[i] = 1; vs |= P.n[pcs[i]].vs; ch = true; }
  }
  for (size_t i = 0; i < pcs.size(); i++) if (in[i]) slice.push_back(pcs[i]);
  std::sort(slice.begin(), slice.end());
  slice.erase(std::unique(slice.begin(), slice.end()), slice.end());
  std::vector<u32> key = slice;
  key.push_back(cond);
  auto it = qcache.find(key);
  QRes res;
  if (it != qcache.end()) { sh->cacheHits++; res = it->second; }
  else {
    res.r = -2;
    std::vector<u32> vars;
    std::vector<u8>  seen;
    varsOf(cond, vars, seen);
    for (u32 e : slice) varsOf(e, vars, seen);
    // tiny domains: look for a witness by evaluating every value of the slice; without one, the solver decides
    u64 prod = 1;
    for (u32 v : vars) {
      u64 d = P.vars[v].sgn ? (u64)P.vars[v].shi - (u64)P.vars[v].slo : P.vars[v].uhi - P.vars[v].ulo;
      if (d >= 64) { prod = ~0ull; break; }
      prod *= d + 1;
      if (prod > 1024) { prod = ~0ull; break; }
    }
    if (prod != ~0ull) {
      std::vector<u64> m = model;
      fullModel(m);
      res.r = 0;
      for (u64 k = 0; k < prod && !res.r; k++) {
        u64 q = k;
        for (u32 v : vars) {
          u64 lo = P.vars[v].sgn ? (u64)P.vars[v].slo : P.vars[v].ulo, d = (P.vars[v].sgn ? (u64)P.vars[v].shi : P.vars[v].uhi) - lo + 1;
          m[v] = (lo + q % d) & maskw(P.vars[v].w);
          q /= d;
        }
        P.evalBegin();
        bool ok = P.evalRec(cond, m);
        for (size_t i = 0; i < slice.size() && ok; i++) ok = P.evalRec(slice[i], m);
        if (ok) { res.r = 1; for (u32 v : vars) res.m.push_back({v, m[v]}); }
      }
      if (res.r == 1) sh->domain++;
    }
    bool none = res.r == 0;
    if (none && sh->confirmNs > optConfirmNs) sh->evalUnsat++; // past the budget the complete evaluation stands on its own
    else if (res.r != 1) {
      bool lia = true;
      std::vector<Z3_ast> as;
      for (u32 e : key) { Z3_ast a = Z->li(e, 2); if (!a) { lia = false; break; } as.push_back(a); }
      Z3_solver zs = lia ? zsL : zsB;
      if (!lia) { as.clear(); for (u32 e : key) as.push_back(Z->go(e)); }
      Z3_solver_push(Z->c, zs);
      for (auto a : as) Z3_solver_assert(Z->c, zs, a);
      Z3_lbool r = Z3_solver_check(Z->c, zs);
      sh->queries++;
      if (lia) sh->queriesLia++;
      res.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
      if (none && res.r == 1) { fprintf(stderr, "gsym: evaluation and solver disagree\n"); sh->fatal++; _exit(3); }
      if (r == Z3_L_TRUE) {
        sh->sat++;
        Z3_model m = Z3_solver_get_model(Z->c, zs);
        Z3_model_inc_ref(Z->c, m);
        for (u32 i : vars) {
          Z3_ast v = nullptr;
          u64 x = i < model.size() ? model[i] : 0;
          if (Z3_model_eval(Z->c, m, lia ? Z->ivar(i) : Z->var(i), true, &v)) {
            if (lia) { int64_t y; uint64_t z; if (Z3_get_numeral_int64(Z->c, v, &y)) x = (u64)y & maskw(P.vars[i].w); else if (Z3_get_numeral_uint64(Z->c, v, &z)) x = z; }
            else if (P.vars[i].w == 1) x = Z3_get_bool_value(Z->c, v) == Z3_L_TRUE;
            else { uint64_t z; if (Z3_get_numeral_uint64(Z->c, v, &z)) x = z; }
          }
          res.m.push_back({i, x});
        }
        Z3_model_dec_ref(Z->c, m);
      } else if (r == Z3_L_FALSE) sh->unsat++;
      else sh->unknown++;
      Z3_solver_pop(Z->c, zs, 1);
      u64 ns = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now() - t0).count();
      sh->solverNs += ns;
      if (none) sh->confirmNs += ns;
      if (none && res.r < 0) { res.r = 0; sh->unknown--; sh->evalUnsat++; } // the evaluation was complete
      if (ns > sh->maxQueryNs) sh->maxQueryNs = ns;
      if (optVerbose > 1 && ns > 200000000) fprintf(stderr, "slow query %.2fs lia=%d slice=%zu vars=%zu -> %d\n", ns / 1e9, lia, slice.size(), vars.size(), res.r);
      if (optVerbose > 2 && ns > 200000000) { Z3_solver_push(Z->c, zs); for (auto a : as) Z3_solver_assert(Z->c, zs, a); fprintf(stderr, "%s\n", Z3_solver_to_string(Z->c, zs)); Z3_solver_pop(Z->c, zs, 1); }
    }
    if (qcache.size() < 300000) qcache[key] = res;
  }
  if (res.r == 1 && out) {
    *out = model;
    fullModel(*out);
    for (auto& kv : res.m) (*out)[kv.first] = kv.second;
    // a model must satisfy everything it is claimed to satisfy
    P.evalBegin();
    for (E e : pcs)
      if (!P.evalRec(e, *out)) { fprintf(stderr, "gsym: model check failed (path condition)\n"); sh->fatal++; _exit(3); }
    if (!P.evalRec(cond, *out)) { fprintf(stderr, "gsym: model check failed (query)\n"); sh->fatal++; _exit(3); }
    pool.push_front(*out);
    if (pool.size() > 8) pool.pop_back();
  }
  return res.r;
}
static int feasible(E cond, std::vector<u64>* out) {
  for (auto& m : pool) {
    P.evalBegin();
    if (!P.evalRec(cond, m)) continue;
    bool ok = true;
    for (size_t i = pcs.size(); i-- > 0 && ok;) ok = P.evalRec(pcs[i], m);
    if (ok) {
      sh->modelHits++;
      if (out) { *out = m; fullModel(*out); }
      return 1;
    }
  }
  return query(cond, out);
}

static void learn(E c) {
  if (known.count(c)) return;
  known[c] = 1;
  knownTrail.push_back(c);
  if (P.n[c].op == O_AND && P.n[c].w == 1) { E a = P.n[c].a, b = P.n[c].b; learn(a); learn(b); }
  if (P.n[c].op == O_XOR && P.n[c].w == 1 && P.isC(P.n[c].b)) {
    E a = P.n[c].a;
    if (P.n[a].op == O_OR) {
      V x = P.lnot(V{0, P.n[a].a}), y = P.lnot(V{0, P.n[a].b});
      if (x.e) learn(x.e);
      if (y.e) learn(y.e);
    }
  }
}
static void addPC(V c) {
  if (!c.e) return;
  if (known.count(c.e)) return;
  pcs.push_back(c.e);
  sh->constr++;
  learn(c.e);
}
static int lookupKnown(E c) {
  if (known.count(c)) return 1;
  V nc = P.lnot(V{0, c});
  if (nc.e && known.count(nc.e)) return 0;
  const Node x = P.n[c];
  if (x.w == 1 && x.op == O_AND) {
    int a = lookupKnown(x.a);
    if (a == 0) return 0;
    int b = lookupKnown(x.b);
    if (b == 0) return 0;
    if (a == 1 && b == 1) return 1;
  } else if (x.w == 1 && x.op == O_OR) {
    int a = lookupKnown(x.a);
    if (a == 1) return 1;
    int b = lookupKnown(x.b);
    if (b == 1) return 1;
    if (a == 0 && b == 0) return 0;
  } else if (x.w == 1 && x.op == O_XOR && P.isC(x.b)) {
    int a = lookupKnown(x.a);
    if (a >= 0) return !a;
  }
  return -1;
}

// ---------------------------------------------------------------- errors / path ends
struct PathEnd { int kind; }; // 0 complete 1 infeasible 2 error 3 stop
static FILE* fout;
static std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static std::string where(const Instruction* I) {
  if (!I) return "?";
  std::string r;
  const DILocation* d = I->getDebugLoc().get();
  int k = 0;
  while (d && k < 6) {
    std::string fnm = d->getScope()->getSubprogram() ? d->getScope()->getSubprogram()->getName().str() : "?";
    std::string fl  = d->getFilename().str();
    size_t p = fl.rfind('/');
    if (p != std::string::npos) fl = fl.substr(p + 1);
    if (!r.empty()) r += " < ";
    r += fnm + "@" + fl + ":" + std::to_string(d->getLine());
    d = d->getInlinedAt();
    k++;
  }
  return r;
}
static std::string inputsJson(const std::vector<u64>& m) {
  std::string r = "[";
  for (size_t i = 0; i < S.pathVars.size(); i++) {
    auto& v = P.vars[S.pathVars[i]];
    u64   x = S.pathVars[i] < m.size() ? m[S.pathVars[i]] : 0;
    if (i) r += ",";
    r += "[" + jstr(v.name) + ",";
    if (v.sgn) r += std::to_string(sext64(x, v.w));
    else r += std::to_string(x);
    r += "]";
  }
  return r + "]";
}
static const Instruction* curInst() {
  if (S.frames.empty()) return nullptr;
  auto& f = S.frames.back();
  auto& F = fns[f.fn];
  return f.pc < F.src.size() ? F.src[f.pc] : nullptr;
}
static void emit(const std::string& s) {
  std::string t = s + "\n";
  if (write(fileno(fout), t.data(), t.size()) < 0) {}
}
static void report(const char* kind, const std::string& label, const std::vector<u64>& m) {
  std::string st;
  int k = 0;
  for (size_t i = S.frames.size(); i-- > 0 && k < 8; k++) {
    auto& f = S.frames[i];
    if (!st.empty()) st += " | ";
    st += where(f.pc < fns[f.fn].src.size() ? fns[f.fn].src[f.pc] : nullptr);
  }
  emit("{\"type\":\"finding\",\"kind\":" + jstr(kind) + ",\"label\":" + jstr(label) + ",\"where\":" + jstr(st) + ",\"inputs\":" + inputsJson(m) + "}");
  if (++sh->findings >= optMaxFindings) sh->stop = 1;
}
[[noreturn]] static void fail(const char* kind, const std::string& label) {
  report(kind, label, model);
  throw PathEnd{2};
}
[[noreturn]] static void unsupported(const std::string& what) {
  if (sh->unsupported++ < 20) {
    std::string st;
    for (size_t i = S.frames.size(), k = 0; i-- > 0 && k < 5; k++) st += where(S.frames[i].pc < fns[S.frames[i].fn].src.size() ? fns[S.frames[i].fn].src[S.frames[i].pc] : nullptr) + " | ";
    emit("{\"type\":\"unsupported\",\"what\":" + jstr(what) + ",\"where\":" + jstr(st) + ",\"inputs\":" + inputsJson(model) + "}");
  }
  throw PathEnd{2};
}

// ---------------------------------------------------------------- forking
static void restore(Choice& c) {
  while (undo.size() > c.undoPos) {
    Undo& u = undo.back();
    if (u.addr) {
      memcpy((void*)u.addr, &u.data, 8);
      memcpy(shadow + (u.addr - ABASE), u.sh, 32);
    } else {
      u32 o = u.data >> 1;
      if (o < objs.size()) objs[o].alive = u.data & 1;
    }
    undo.pop_back();
  }
  objs.resize(c.nobjs);
  bumpPtr = c.bump;
  pcs.resize(c.npcs);
  while (knownTrail.size() > c.nknown) { known.erase(knownTrail.back()); knownTrail.pop_back(); }
  S     = std::move(c.s);
  model = std::move(c.model);
}
static double lastFork;
static bool resumeFrom(Choice c, u64 newUndoLimit) {
  restore(c);
  undoLimit = newUndoLimit;
  addPC(V{0, c.cond});
  return true;
}
static void childMain(Choice c); // never returns
static void maybeSplit() {
  if (choices.empty()) return;
  int t = sh->tokens.load();
  if (t <= 0) return;
  double n = now();
  if (n - lastFork < 0.02) return;
  if (!sh->tokens.compare_exchange_strong(t, t - 1)) return;
  lastFork = n;
  sh->active++;
  sh->procs++;
  pid_t pid = fork();
  if (pid < 0) { sh->active--; sh->tokens++; return; }
  if (pid == 0) {
    Choice c = std::move(choices.front());
    choices.clear();
    childMain(std::move(c));
    _exit(0);
  }
  choices.pop_front();
}
static void pushChoice(E cond, std::vector<u64>&& m) {
  choices.emplace_back();
  Choice& c = choices.back();
  c.s.frames = S.frames;
  c.s.regs.assign(S.regs.begin(), S.regs.begin() + S.top);
  c.s.top = S.top;
  c.s.stackObjs = S.stackObjs;
  c.s.excs = S.excs;
  c.s.caught = S.caught;
  c.s.obs = S.obs;
  c.s.pathVars = S.pathVars;
  c.s.curExc = S.curExc; c.s.curSel = S.curSel; c.s.live = S.live; c.s.steps = S.steps;
  c.undoPos = undo.size();
  c.nobjs = objs.size();
  c.npcs = pcs.size();
  c.nknown = knownTrail.size();
  c.bump = bumpPtr;
  c.cond = cond;
  c.model = std::move(m);
  undoLimit = bumpPtr;
  sh->forks++;
}
// Uninitialised data that the path condition rules out (the untaken side of a conditional value) doesn't count: drop it, semantically.
static V dropUndef(V v, std::unordered_map<E, V>& memo) {
  if (!v.e || !P.n[v.e].undef) return v;
  auto it = memo.find(v.e);
  if (it != memo.end()) return it->second;
  Node x = P.n[v.e];
  V    r = v;
  auto sub = [&](E e) { return dropUndef(P.cv(e), memo); };
  switch (x.op) {
  case O_ITE: {
    V c = sub(x.a);
    if (!c.e) { r = sub(c.c & 1 ? x.b : x.c); break; }
    if (P.n[c.e].undef) break;
    V b = sub(x.b), d = sub(x.c);
    bool ub = b.e && P.n[b.e].undef, ud = d.e && P.n[d.e].undef;
    std::vector<u64> m;
    if (ub || ud) {
      if (feasible(c.e, &m) == 0) { r = d; break; }
      V nc = P.lnot(c);
      if (!nc.e ? !nc.c : feasible(nc.e, &m) == 0) { r = b; break; }
    }
    r = P.ite(c, b, d, x.w);
    break;
  }
  case O_CONCAT: { int lw = P.n[x.b].w; r = P.concat(sub(x.a), x.w - lw, sub(x.b), lw); break; }
  case O_EXTRACT: {
    V y = sub(x.a);
    r = P.extract(y, (int)x.k, x.w);
    if (r.e && P.n[r.e].undef && y.e && P.n[y.e].op == O_ITE) { // only the extracted part has to be defined
      Node q = P.n[y.e];
      r = P.ite(P.cv(q.a), P.extract(P.cv(q.b), (int)x.k, x.w), P.extract(P.cv(q.c), (int)x.k, x.w), x.w);
    }
    break;
  }
  case O_ZEXT: r = P.zext(sub(x.a), P.n[x.a].w, x.w); break;
  case O_SEXT: r = P.sext(sub(x.a), P.n[x.a].w, x.w); break;
  case O_EQ: { int w = P.n[x.a].w; r = P.eq(sub(x.a), sub(x.b), w); break; }
  case O_ULT: { int w = P.n[x.a].w; r = P.ult(sub(x.a), sub(x.b), w); break; }
  case O_ULE: { int w = P.n[x.a].w; r = P.ule(sub(x.a), sub(x.b), w); break; }
  case O_SLT: { int w = P.n[x.a].w; r = P.slt(sub(x.a), sub(x.b), w); break; }
  case O_SLE: { int w = P.n[x.a].w; r = P.sle(sub(x.a), sub(x.b), w); break; }
  case O_ADD: case O_SUB: case O_MUL: case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: case O_SHL: case O_LSHR: case O_ASHR: case O_AND: case O_OR: case O_XOR:
    r = P.bin((Op)x.op, sub(x.a), sub(x.b), x.w);
    if (r.e && P.n[r.e].undef && x.w == 1 && (x.op == O_OR || x.op == O_AND)) { // the defined operands may settle it
      std::vector<E> todo{r.e};
      V def{(u64)(x.op == O_AND), 0};
      while (!todo.empty()) {
        E e = todo.back(); todo.pop_back();
        Node y = P.n[e];
        if (!y.undef) def = P.bin((Op)x.op, def, V{0, e}, 1);
        else if (y.op == x.op) { todo.push_back(y.a); todo.push_back(y.b); }
      }
      if (def.e) {
        V need = x.op == O_OR ? P.lnot(def) : def;
        std::vector<u64> m;
        if (need.e && feasible(need.e, &m) == 0) r = V{(u64)(x.op == O_OR), 0};
      }
    }
    break;
  default: break;
  }
  memo[v.e] = r;
  return r;
}
static std::string show(E e, int d = 0) { // debugging aid
  static const char* nm[] = {"none", "const", "var", "UNDEF", "+", "-", "*", "/", "s/", "%", "s%", "<<", ">>", "s>>", "&", "|", "^", "cat", "ext", "zx", "sx", "=", "<", "<=", "s<", "s<=", "ite"};
  const Node& x = P.n[e];
  if (x.op == O_CONST) return std::to_string(x.k);
  if (x.op == O_VAR) return P.vars[x.k].name;
  if (x.op == O_UNDEF) return "UNDEF";
  if (d > 14) return "..";
  std::string r = std::string("(") + nm[x.op];
  if (x.op == O_EXTRACT) r += std::to_string(x.k) + ":" + std::to_string(x.w);
  for (E c : {x.a, x.b, x.c}) if (c) r += " " + show(c, d + 1);
  return r + ")";
}
static V defined(V v, const std::string& what) {
  if (!v.e || !P.n[v.e].undef) return v;
  std::unordered_map<E, V> memo;
  V r = dropUndef(v, memo);
  if (r.e && P.n[r.e].undef) {
    if (const char* f = getenv("GSYM_SHOW")) if (FILE* o = fopen(f, "a")) { fprintf(o, "uninit: %s\n  before %s\n", show(r.e).c_str(), show(v.e).c_str()); for (E p : pcs) fprintf(o, "  pc %s\n", show(p).c_str()); fclose(o); }
    fail("uninit", what);
  }
  return r;
}
// decide a symbolic condition; the other side (when feasible) becomes a pending choice that re-executes the instruction
static bool decide(V c) {
  if (!c.e) return c.c & 1;
  c = defined(c, "branch on uninitialised data");
  if (!c.e) return c.c & 1;
  int k = lookupKnown(c.e);
  if (k >= 0) { sh->knownHits++; return k; }
  sh->symBranch++;
  P.evalBegin();
  bool side = P.evalRec(c.e, model);
  V    nc   = P.lnot(c);
  V    mine = side ? c : nc, other = side ? nc : c;
  std::vector<u64> m2;
  int  r = feasible(other.e, &m2);
  if (r < 0) { emit("{\"type\":\"unknown\"}"); sh->incomplete = 1; }
  if (r == 0) {
    sh->implied++;
    learn(mine.e); // implied: no new constraint needed
    return side;
  }
  if (r == 1) pushChoice(other.e, std::move(m2));
  addPC(mine);
  maybeSplit();
  return side;
}
// fix a symbolic value to one of its feasible values (the rest stay pending)
static u64 pick(V v, int w) {
  if (!v.e) return v.c;
  v = defined(v, "use of uninitialised data as address, size or index");
  if (!v.e) return v.c;
  P.evalBegin();
  u64 x = P.evalRec(v.e, model);
  sh->picks++;
  V c = P.eq(v, V{x, 0}, w);
  decide(c); // model makes it true
  return x;
}

// structural candidate set of an address expression
static bool candRec(E e, std::vector<u64>& out, size_t lim) {
  const Node x = P.n[e];
  u64 m = maskw(x.w);
  auto uniq = [&]() { std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end()); return out.size() <= lim; };
  switch (x.op) {
  case O_CONST: out = {x.k}; return true;
  case O_ITE: {
    std::vector<u64> a, b;
    int k = lookupKnown(x.a);
    if (k == 1) return candRec(x.b, out, lim);
    if (k == 0) return candRec(x.c, out, lim);
    if (!candRec(x.b, a, lim) || !candRec(x.c, b, lim)) return false;
    out = a;
    out.insert(out.end(), b.begin(), b.end());
    return uniq();
  }
  case O_ADD: case O_SUB: case O_MUL: case O_SHL: {
    std::vector<u64> a, b;
    if (!candRec(x.a, a, lim) || !candRec(x.b, b, lim) || a.size() * b.size() > lim) break;
    out.clear();
    for (u64 p : a) for (u64 q : b) out.push_back(P.bin((Op)x.op, V{p, 0}, V{q, 0}, x.w).c);
    return uniq();
  }
  case O_ZEXT: return candRec(x.a, out, lim);
  case O_SEXT: {
    if (!candRec(x.a, out, lim)) return false;
    for (auto& v : out) v = (u64)sext64(v, P.n[x.a].w) & m;
    return uniq();
  }
  default: break;
  }
  if (x.uhi - x.ulo < lim) { out.clear(); for (u64 v = x.ulo;; v++) { out.push_back(v); if (v == x.uhi) break; } return true; }
  if ((u64)(x.shi - x.slo) < lim) { out.clear(); for (i64 v = x.slo;; v++) { out.push_back((u64)v & m); if (v == x.shi) break; } return uniq(); }
  return false;
}
static std::string accessWhat(u64 a, u64 n, bool wr) {
  int o = objAt(a);
  std::string s = wr ? "invalid write of " : "invalid read of ";
  s += std::to_string(n) + " bytes: ";
  if (a < 4096) return s + "null pointer dereference";
  if (!o) return s + "out of bounds";
  const char* k = objs[o].kind == K_HEAP ? "heap" : objs[o].kind == K_STACK ? "stack" : "global";
  if (!objs[o].alive) return s + "use after lifetime (" + k + ")";
  return s + "out of bounds (" + k + ")";
}
// Resolve an address for an n-byte access: either one concrete address (out size 1) or several with ITE semantics
static void resolve(V a, u64 n, bool wr, size_t maxIte, std::vector<u64>& out) {
  out.clear();
  a = defined(a, "address depends on uninitialised data");
  if (!a.e) {
    if (!okAccess(a.c, n)) fail("memory", accessWhat(a.c, n, wr));
    out.push_back(a.c);
    return;
  }
  std::vector<u64> c;
  if (!candRec(a.e, c, 256)) {
    u64 x = pick(a, 64);
    if (!okAccess(x, n)) fail("memory", accessWhat(x, n, wr));
    out.push_back(x);
    return;
  }
  V bad{0, 0};
  for (u64 x : c) {
    if (okAccess(x, n)) out.push_back(x);
    else bad = P.bin(O_OR, bad, P.eq(a, V{x, 0}, 64), 1);
  }
  if (bad.e || bad.c) {
    if (decide(bad)) {
      P.evalBegin();
      u64 x = P.evalRec(a.e, model);
      fail("memory", accessWhat(x, n, wr));
    }
  }
  if (out.size() == 1) return;
  if (out.size() > maxIte || out.empty()) {
    u64 x = pick(a, 64);
    out = {x};
    return;
  }
}
static V symLoad(V a, int bits, bool isPtr) {
  a = defined(a, "address depends on uninitialised data");
  if (!a.e) {
    if (!okAccess(a.c, (bits + 7) / 8)) fail("memory", accessWhat(a.c, (bits + 7) / 8, false));
    return loadMem(a.c, bits);
  }
  static std::vector<u64> c;
  resolve(a, (bits + 7) / 8, false, isPtr ? 1 : 16, c);
  V r = loadMem(c.back(), bits);
  if (c.size() > 1) sh->itesLoads++;
  for (size_t i = c.size() - 1; i-- > 0;) r = P.ite(P.eq(a, V{c[i], 0}, 64), loadMem(c[i], bits), r, bits);
  return r;
}
static void symStore(V a, V v, int bits) {
  a = defined(a, "address depends on uninitialised data");
  if (!a.e) {
    if (!okAccess(a.c, (bits + 7) / 8)) fail("memory", accessWhat(a.c, (bits + 7) / 8, true));
    storeMem(a.c, v, bits);
    return;
  }
  std::vector<u64> c;
  resolve(a, (bits + 7) / 8, true, 8, c);
  if (c.size() == 1) { storeMem(c[0], v, bits); return; }
  for (u64 x : c) storeMem(x, P.ite(P.eq(a, V{x, 0}, 64), v, loadMem(x, bits), bits), bits);
}

#include "translate.inc"
#include "interp.inc"
#include "main.inc"
