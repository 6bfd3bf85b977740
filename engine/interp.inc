// ---------------------------------------------------------------- interpreter
static V icmp(int pred, V a, V b, int w) {
  switch (pred) {
  case CmpInst::ICMP_EQ: return P.eq(a, b, w);
  case CmpInst::ICMP_NE: return P.lnot(P.eq(a, b, w));
  case CmpInst::ICMP_ULT: return P.ult(a, b, w);
  case CmpInst::ICMP_ULE: return P.ule(a, b, w);
  case CmpInst::ICMP_UGT: return P.ult(b, a, w);
  case CmpInst::ICMP_UGE: return P.ule(b, a, w);
  case CmpInst::ICMP_SLT: return P.slt(a, b, w);
  case CmpInst::ICMP_SLE: return P.sle(a, b, w);
  case CmpInst::ICMP_SGT: return P.slt(b, a, w);
  case CmpInst::ICMP_SGE: return P.sle(b, a, w);
  }
  abort();
}
static double toD(u64 b, int w) {
  if (w == 64) { double d; memcpy(&d, &b, 8); return d; }
  float f; u32 x = b; memcpy(&f, &x, 4);
  return f;
}
static u64 fromD(double d, int w) {
  if (w == 64) { u64 b; memcpy(&b, &d, 8); return b; }
  float f = (float)d; u32 x; memcpy(&x, &f, 4);
  return x;
}
static std::string cstr(u64 a) {
  std::string s;
  while (a && okAccess(a, 1) && *(char*)a && s.size() < 300) s += *(char*)a++;
  return s;
}
static u32 nameId(const std::string& s) {
  auto it = nameIdx.find(s);
  if (it != nameIdx.end()) return it->second;
  names.push_back(s);
  return nameIdx[s] = names.size() - 1;
}
static void markStack(Frame& f) {
  for (size_t i = f.stackMark; i < S.stackObjs.size(); i++)
    if (objs[S.stackObjs[i]].alive) setDead(S.stackObjs[i]);
  S.stackObjs.resize(f.stackMark);
}
static void pushFrame(int fn, int callIdx, const std::vector<V>& args, int bvList) {
  Fn& F = fns[fn];
  if (!F.translated) unsupported("call to function without body: " + F.f->getName().str());
  if (S.frames.size() > 20000) fail("recursion", "stack depth exceeded");
  Frame f;
  f.fn = fn; f.base = S.top; f.pc = 0; f.stackMark = S.stackObjs.size(); f.call = callIdx;
  S.top += F.nslots + 1;
  if (S.regs.size() < S.top) S.regs.resize(S.top * 2);
  for (size_t i = 0; i < args.size(); i++) S.regs[f.base + i] = args[i];
  S.frames.push_back(f);
  if (bvList >= 0) {
    auto& bv = lists[bvList];
    for (size_t i = 0; i + 1 < bv.size(); i += 2) {
      u64 src = args[bv[i]].c, n = bv[i + 1];
      if (!okAccess(src, n)) fail("memory", accessWhat(src, n, false));
      u64 d = allocMem(n, K_STACK);
      if (!d) unsupported("arena exhausted");
      S.stackObjs.push_back(objs.size() - 1);
      memcpy((void*)d, (void*)src, n);
      memcpy(shadow + (d - ABASE), shadow + (src - ABASE), n * 4);
      S.regs[f.base + bv[i]] = V{d, 0};
    }
  }
}
static void takeEdge(int e) {
  auto& ed = edges[e];
  Frame& f = S.frames.back();
  V* R = &S.regs[f.base];
  size_t n = ed.copies.size();
  if (n == 1) { auto& c = ed.copies[0]; R[c.first] = c.second >= 0 ? R[c.second] : consts[-1 - c.second]; }
  else if (n) {
    V tmp[64];
    std::vector<V> big;
    V* t = tmp;
    if (n > 64) { big.resize(n); t = big.data(); }
    for (size_t i = 0; i < n; i++) { auto& c = ed.copies[i]; t[i] = c.second >= 0 ? R[c.second] : consts[-1 - c.second]; }
    for (size_t i = 0; i < n; i++) R[ed.copies[i].first] = t[i];
  }
  f.pc = ed.target;
}
// after the call instruction in the (now top) frame has produced its results
static void afterCall(CallInfo& ci) {
  if (ci.normal >= 0) takeEdge(ci.normal);
  else S.frames.back().pc++;
}
static bool tiMatch(const GlobalVariable* thrown, const GlobalVariable* want, int depth = 0) {
  if (!want) return true;
  if (!thrown || depth > 10) return false;
  if (thrown == want || thrown->getName() == want->getName()) return true;
  if (!thrown->hasInitializer()) return false;
  const Constant* in = thrown->getInitializer();
  for (unsigned i = 2; i < in->getNumOperands(); i++) {
    auto* g = dyn_cast<GlobalVariable>(in->getOperand(i)->stripPointerCasts());
    if (g && g->getName().starts_with("_ZTI") && tiMatch(g, want, depth + 1)) return true;
  }
  return false;
}
static ExcInfo* excOf(u64 obj) {
  for (auto& e : S.excs) if (e.obj == obj) return &e;
  return nullptr;
}
static int typeId(const GlobalVariable* g) {
  if (!g) return 1000000; // catch-all
  auto it = tiId.find(g);
  if (it != tiId.end() && it->second) return it->second;
  return 999999;
}
// propagate exception `obj` out of the current position of the top frame (whose current instruction is a call/resume)
static void unwindFrom(u64 obj, bool startAtTop) {
  ExcInfo* x = excOf(obj);
  const GlobalVariable* ti = x ? addrTi[x->ti] : nullptr;
  auto lpOf = [&](size_t fi) -> int {
    Frame& f = S.frames[fi];
    Ins& in = fns[f.fn].code[f.pc];
    if (in.op != B_CALL) return -1;
    return calls[in.aux].unwind;
  };
  // phase 1
  bool found = false;
  for (size_t i = S.frames.size(); i-- > 0;) {
    if (i + 1 == S.frames.size() && !startAtTop) continue;
    int e = lpOf(i);
    if (e < 0) continue;
    // find landingpad instruction at the target
    Frame& f = S.frames[i];
    Fn& F = fns[f.fn];
    size_t pc = edges[e].target;
    while (pc < F.code.size() && F.code[pc].op != B_LPAD) pc++;
    LpadInfo& li = lpads[F.code[pc].aux];
    for (size_t k = 0; k < li.isCatch.size(); k++)
      if (!li.isCatch[k] || tiMatch(ti, li.catches[k])) { found = true; break; }
    if (found) break;
  }
  if (!found) fail("exception", "uncaught exception of type " + (ti ? demangle(ti->getName().str()) : std::string("?")));
  for (;;) {
    if (!startAtTop) {
      markStack(S.frames.back());
      S.top = S.frames.back().base;
      S.frames.pop_back();
    }
    startAtTop = false;
    if (S.frames.empty()) fail("exception", "unwound past the entry");
    int e = lpOf(S.frames.size() - 1);
    if (e < 0) continue;
    Frame& f = S.frames.back();
    Fn& F = fns[f.fn];
    size_t pc = edges[e].target;
    while (F.code[pc].op != B_LPAD) pc++;
    LpadInfo& li = lpads[F.code[pc].aux];
    int sel = -1;
    for (size_t k = 0; k < li.isCatch.size() && sel < 0; k++)
      if (!li.isCatch[k] || tiMatch(ti, li.catches[k])) sel = typeId(li.catches[k]);
    if (sel < 0 && !li.cleanup) continue;
    if (sel < 0) sel = 0;
    S.curExc = obj;
    S.curSel = sel;
    takeEdge(e);
    return;
  }
}
static void checkDeadline() {
  if (sh->stop.load(std::memory_order_relaxed)) throw PathEnd{3};
  if (now() - tStart > optTime) { sh->incomplete = 1; sh->stop = 1; throw PathEnd{3}; }
}
static u64 doAlloc(u64 n, OKind k, u64 align = 16) {
  u64 a = allocMem(n, k, true, align);
  if (!a) unsupported("arena exhausted");
  return a;
}
static void memCopy(u64 d, u64 s, u64 n) {
  if (!n || d == s) return;
  if (!okAccess(s, n)) fail("memory", accessWhat(s, n, false));
  if (!okAccess(d, n)) fail("memory", accessWhat(d, n, true));
  touch(d, n);
  memmove((void*)d, (void*)s, n);
  memmove(shadow + (d - ABASE), shadow + (s - ABASE), n * 4);
}
static void doDelete(u64 p) {
  if (!p) return;
  int o = objAt(p);
  if (!o || objs[o].base != p || objs[o].kind != K_HEAP) fail("memory", "invalid deallocation");
  if (!objs[o].alive) fail("memory", "double free");
  setDead(o);
  S.live--;
}
static void symAssert(V c, const std::string& label) {
  sh->asserts++;
  c = defined(c, "assertion on uninitialised data: " + label);
  if (!c.e) {
    sh->assertsConst++;
    if (!c.c) fail("assert", label);
    return;
  }
  int k = lookupKnown(c.e);
  if (k == 1) { sh->assertsConst++; return; }
  P.evalBegin();
  if (!P.evalRec(c.e, model)) { fail("assert", label); }
  V nc = P.lnot(c);
  std::vector<u64> m2;
  sh->assertsQuery++;
  int r = feasible(nc.e, &m2);
  if (r < 0) { emit("{\"type\":\"unknown\"}"); sh->incomplete = 1; return; }
  if (r == 1) {
    report("assert", label, m2);
    // continue on the side where it holds
    pcs.push_back(c.e);
    learn(c.e);
    return;
  }
  learn(c.e);
}
static void symAssume(V c) {
  if (!c.e) { if (!c.c) throw PathEnd{1}; return; }
  int k = lookupKnown(c.e);
  if (k == 1) return;
  if (k == 0) throw PathEnd{1};
  P.evalBegin();
  if (P.evalRec(c.e, model)) { addPC(c); return; }
  std::vector<u64> m2;
  int r = feasible(c.e, &m2);
  if (r < 0) { emit("{\"type\":\"unknown\"}"); sh->incomplete = 1; throw PathEnd{1}; }
  if (r == 0) throw PathEnd{1};
  model = m2;
  addPC(c);
}
static u64 rng(u64 x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }

static V symVar(const std::string& base, bool sgn, u64 lo, u64 hi) {
  // unique name per occurrence along the path
  std::string nm = base + "#" + std::to_string(S.pathVars.size());
  int w;
  if (sgn) {
    i64 l = (i64)lo, h = (i64)hi;
    if (l > h) throw PathEnd{1};
    if (l == h) { /* still recorded so that replays stay aligned */ }
    w = 1;
    while (w < 64 && (l < smin_w(w) || h > smax_w(w))) w++;
    if (w == 1) w = 2;
  } else {
    if (lo > hi) throw PathEnd{1};
    w = 1;
    while (w < 64 && hi > maskw(w)) w++;
  }
  E e = P.newVar(nm, w, sgn, lo, hi);
  u32 idx = -1;
  for (u32 i = 0; i < P.vars.size(); i++) if (P.vars[i].name == nm && P.vars[i].w == w && P.vars[i].sgn == sgn && (sgn ? P.vars[i].slo == (i64)lo && P.vars[i].shi == (i64)hi : P.vars[i].ulo == lo && P.vars[i].uhi == hi)) idx = i;
  if (P.n[e].op == O_VAR) idx = P.n[e].k;
  S.pathVars.push_back(idx);
  if (sh->maxVars < S.pathVars.size()) sh->maxVars = S.pathVars.size();
  if (model.size() <= idx) {
    size_t o = model.size();
    model.resize(idx + 1);
    for (size_t i = o; i <= idx; i++) {
      auto& v = P.vars[i];
      u64 r = rng(optSeed * 1000003 + i), range = v.sgn ? (u64)v.shi - (u64)v.slo : v.uhi - v.ulo;
      u64 x = (v.sgn ? (u64)v.slo : v.ulo) + (range == ~0ull ? r : r % (range + 1));
      model[i] = x & maskw(v.w);
    }
  }
  // range constraint, when not implied by the width
  V ve{0, e};
  if (sgn) {
    { E c = P.mk(O_SLE, 1, P.cst(lo & maskw(w), w), e); if (!known.count(c)) { pcs.push_back(c); learn(c); } }
    { E c = P.mk(O_SLE, 1, e, P.cst(hi & maskw(w), w)); if (!known.count(c)) { pcs.push_back(c); learn(c); } }
    return P.sext(P.wrap(e), w, 64);
  }
  { E c = P.mk(O_ULE, 1, P.cst(lo, w), e); if (!known.count(c)) { pcs.push_back(c); learn(c); } }
  { E c = P.mk(O_ULE, 1, e, P.cst(hi, w)); if (!known.count(c)) { pcs.push_back(c); learn(c); } }
  return P.zext(P.wrap(e), w, 64);
}

static void pathDone() {
  u64 np = ++sh->paths;
  bool dump = np <= 20 || rng(optSeed ^ (np * 77)) % std::max<u64>(1, np / 60) == 0;
  if (dump && sh->traces < optMaxTraces) {
    sh->traces++;
    std::string r = "{\"type\":\"trace\",\"inputs\":" + inputsJson(model) + ",\"obs\":[";
    P.evalBegin();
    for (size_t i = 0; i < S.obs.size(); i++) {
      V v = S.obs[i].v;
      if (i) r += ",";
      r += "[" + jstr(names[S.obs[i].name]) + "," + std::to_string(v.e ? P.evalRec(v.e, model) : v.c) + "]";
    }
    emit(r + "]}");
  }
}

static void callBuiltin(CallInfo& ci, Ins& in, V* R);

static void execIntrin(Ins& in, V* R) {
  auto& l = lists[in.aux];
  auto  A = [&](int i) { return l[i] >= 0 ? R[l[i]] : consts[-1 - l[i]]; };
  int   w = in.w;
  V*    D = &R[in.dst];
  switch (in.sub) {
  case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: {
    u64 n = pick(A(2), 64), d = pick(A(0), 64), s = pick(A(1), 64);
    memCopy(d, s, n);
    break;
  }
  case Intrinsic::memset: {
    u64 n = pick(A(2), 64), d = pick(A(0), 64);
    V   v = A(1);
    if (!n) break;
    if (!okAccess(d, n)) fail("memory", accessWhat(d, n, true));
    touch(d, n);
    if (!v.e) { memset((void*)d, v.c, n); memset(shadow + (d - ABASE), 0, n * 4); }
    else { for (u64 i = 0; i < n; i++) { *(u8*)(d + i) = 0; shadow[d - ABASE + i] = v.e << 3; } }
    break;
  }
  case Intrinsic::lifetime_start: {
    V p = A(1);
    int o = objAt(p.c);
    if (o && objs[o].kind == K_STACK && objs[o].base == p.c) {
      u64 n = objs[o].size;
      if (!objs[o].alive) setAlive(o);
      touch(p.c, n);
      memset((void*)p.c, 0xAA, n);
      u32* q = shadow + (p.c - ABASE);
      for (u64 i = 0; i < n; i++) q[i] = undef8 << 3;
    }
    break;
  }
  case Intrinsic::lifetime_end: {
    V p = A(1);
    int o = objAt(p.c);
    if (o && objs[o].kind == K_STACK && objs[o].base == p.c && objs[o].alive) setDead(o);
    break;
  }
  case Intrinsic::umax: *D = P.ite(P.ult(A(0), A(1), w), A(1), A(0), w); break;
  case Intrinsic::umin: *D = P.ite(P.ult(A(0), A(1), w), A(0), A(1), w); break;
  case Intrinsic::smax: *D = P.ite(P.slt(A(0), A(1), w), A(1), A(0), w); break;
  case Intrinsic::smin: *D = P.ite(P.slt(A(0), A(1), w), A(0), A(1), w); break;
  case Intrinsic::abs: *D = P.ite(P.slt(A(0), V{0, 0}, w), P.bin(O_SUB, V{0, 0}, A(0), w), A(0), w); break;
  case Intrinsic::ctpop: { u64 x = pick(A(0), w); *D = V{(u64)__builtin_popcountll(x), 0}; break; }
  case Intrinsic::ctlz: { u64 x = pick(A(0), w); *D = V{x ? (u64)__builtin_clzll(x) - (64 - w) : (u64)w, 0}; break; }
  case Intrinsic::cttz: { u64 x = pick(A(0), w); *D = V{x ? (u64)__builtin_ctzll(x) : (u64)w, 0}; break; }
  case Intrinsic::bswap: {
    V x = A(0), r{0, 0};
    for (int i = 0; i < w / 8; i++) { V b = P.extract(x, i * 8, 8); r = i ? P.concat(r, i * 8, b, 8) : b; }
    *D = r;
    break;
  }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    u64 s = pick(A(2), w) % w;
    if (in.sub == Intrinsic::fshr) s = (w - s) % w;
    V a = A(0), b = A(1);
    if (in.sub == Intrinsic::fshr && s == 0) { *D = b; break; }
    if (s == 0) { *D = a; break; }
    *D = P.concat(P.extract(a, 0, w - s), w - s, P.extract(b, w - s, s), s);
    break;
  }
  case Intrinsic::uadd_sat: { V r = P.bin(O_ADD, A(0), A(1), w); *D = P.ite(P.ult(r, A(0), w), V{maskw(w), 0}, r, w); break; }
  case Intrinsic::usub_sat: { V a = A(0), b = A(1); *D = P.ite(P.ult(a, b, w), V{0, 0}, P.bin(O_SUB, a, b, w), w); break; }
  case Intrinsic::uadd_with_overflow: { V a = A(0), b = A(1); V r = P.bin(O_ADD, a, b, w); D[1] = P.ult(r, a, w); D[0] = r; break; }
  case Intrinsic::usub_with_overflow: { V a = A(0), b = A(1); D[1] = P.ult(a, b, w); D[0] = P.bin(O_SUB, a, b, w); break; }
  case Intrinsic::sadd_with_overflow: {
    V a = A(0), b = A(1), r = P.bin(O_ADD, a, b, w);
    D[1] = P.slt(P.bin(O_AND, P.bin(O_XOR, a, r, w), P.bin(O_XOR, b, r, w), w), V{0, 0}, w);
    { E x = P.id(a, w), y = P.id(b, w); i128 lo = (i128)P.n[x].slo + P.n[y].slo, hi = (i128)P.n[x].shi + P.n[y].shi; if (lo >= smin_w(w) && hi <= smax_w(w)) D[1] = V{0, 0}; }
    D[0] = r;
    break;
  }
  case Intrinsic::ssub_with_overflow: {
    V a = A(0), b = A(1), r = P.bin(O_SUB, a, b, w);
    D[1] = P.slt(P.bin(O_AND, P.bin(O_XOR, a, b, w), P.bin(O_XOR, a, r, w), w), V{0, 0}, w);
    { E x = P.id(a, w), y = P.id(b, w); i128 lo = (i128)P.n[x].slo - P.n[y].shi, hi = (i128)P.n[x].shi - P.n[y].slo; if (lo >= smin_w(w) && hi <= smax_w(w)) D[1] = V{0, 0}; }
    D[0] = r;
    break;
  }
  case Intrinsic::umul_with_overflow: {
    V a = A(0), b = A(1);
    E x = P.id(a, w), y = P.id(b, w);
    if ((u128)P.n[x].uhi * P.n[y].uhi <= maskw(w)) D[1] = V{0, 0};
    else if (!a.e && !b.e) D[1] = V{(u128)a.c * b.c > maskw(w), 0};
    else { V q = P.bin(O_UDIV, V{maskw(w), 0}, b, w); D[1] = P.bin(O_AND, P.lnot(P.eq(b, V{0, 0}, w)), P.ult(q, a, w), 1); }
    D[0] = P.bin(O_MUL, a, b, w);
    break;
  }
  case Intrinsic::smul_with_overflow: {
    V a = A(0), b = A(1);
    E x = P.id(a, w), y = P.id(b, w);
    const Node *X = &P.n[x], *Y = &P.n[y];
    i128 p[4] = {(i128)X->slo * Y->slo, (i128)X->slo * Y->shi, (i128)X->shi * Y->slo, (i128)X->shi * Y->shi};
    if (*std::min_element(p, p + 4) >= smin_w(w) && *std::max_element(p, p + 4) <= smax_w(w)) D[1] = V{0, 0};
    else {
      u64 ca = pick(a, w), cb = pick(b, w);
      i128 q = (i128)sext64(ca, w) * sext64(cb, w);
      D[1] = V{q < smin_w(w) || q > smax_w(w), 0};
    }
    D[0] = P.bin(O_MUL, a, b, w);
    break;
  }
  case Intrinsic::fabs: { u64 x = pick(A(0), w); *D = V{fromD(std::fabs(toD(x, w)), w), 0}; break; }
  case Intrinsic::sqrt: { u64 x = pick(A(0), w); *D = V{fromD(std::sqrt(toD(x, w)), w), 0}; break; }
  case Intrinsic::ceil: { u64 x = pick(A(0), w); *D = V{fromD(std::ceil(toD(x, w)), w), 0}; break; }
  case Intrinsic::floor: { u64 x = pick(A(0), w); *D = V{fromD(std::floor(toD(x, w)), w), 0}; break; }
  case Intrinsic::round: { u64 x = pick(A(0), w); *D = V{fromD(std::round(toD(x, w)), w), 0}; break; }
  case Intrinsic::trunc: { u64 x = pick(A(0), w); *D = V{fromD(std::trunc(toD(x, w)), w), 0}; break; }
  case Intrinsic::minnum: { double a = toD(pick(A(0), w), w), b = toD(pick(A(1), w), w); *D = V{fromD(std::fmin(a, b), w), 0}; break; }
  case Intrinsic::maxnum: { double a = toD(pick(A(0), w), w), b = toD(pick(A(1), w), w); *D = V{fromD(std::fmax(a, b), w), 0}; break; }
  case Intrinsic::copysign: { double a = toD(pick(A(0), w), w), b = toD(pick(A(1), w), w); *D = V{fromD(std::copysign(a, b), w), 0}; break; }
  case Intrinsic::is_fpclass: {
    u64 x = pick(A(0), w), m = A(1).c;
    bool neg = (x >> (w - 1)) & 1;
    u64 mant = w == 64 ? x & ((1ull << 52) - 1) : x & ((1ull << 23) - 1), ex = w == 64 ? (x >> 52) & 0x7ff : (x >> 23) & 0xff, mx = w == 64 ? 0x7ff : 0xff;
    int bit;
    if (ex == mx && mant) bit = (mant >> (w == 64 ? 51 : 22)) & 1 ? 1 : 0;
    else if (ex == mx) bit = neg ? 2 : 9;
    else if (ex) bit = neg ? 3 : 8;
    else if (mant) bit = neg ? 4 : 7;
    else bit = neg ? 5 : 6;
    *D = V{(m >> bit) & 1, 0};
    break;
  }
  case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: { u64 x = pick(A(0), w); *D = V{fromD(std::nearbyint(toD(x, w)), w), 0}; break; }
  case Intrinsic::fma: { double a = toD(pick(A(0), w), w), b = toD(pick(A(1), w), w), c = toD(pick(A(2), w), w); *D = V{fromD(std::fma(a, b, c), w), 0}; break; }
  case Intrinsic::fmuladd: { double a = toD(pick(A(0), w), w), b = toD(pick(A(1), w), w), c = toD(pick(A(2), w), w); *D = V{fromD(a * b + c, w), 0}; break; }
  case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: fail("trap", "trap");
  default: unsupported("intrinsic " + Intrinsic::getBaseName(in.sub).str());
  }
}

static void doI128(Ins& in, V* R) {
  auto& l = lists[in.aux];
  auto  A = [&](int i) { return l[i] >= 0 ? R[l[i]] : consts[-1 - l[i]]; };
  V*    D = &R[in.dst];
  if (in.sub >= 1000) {
    u128 a = ((u128)pick(A(1), 64) << 64) | pick(A(0), 64), b = ((u128)pick(A(3), 64) << 64) | pick(A(2), 64);
    bool r = false;
    switch (in.sub - 1000) {
    case CmpInst::ICMP_EQ: r = a == b; break;
    case CmpInst::ICMP_NE: r = a != b; break;
    case CmpInst::ICMP_ULT: r = a < b; break;
    case CmpInst::ICMP_ULE: r = a <= b; break;
    case CmpInst::ICMP_UGT: r = a > b; break;
    case CmpInst::ICMP_UGE: r = a >= b; break;
    case CmpInst::ICMP_SLT: r = (i128)a < (i128)b; break;
    case CmpInst::ICMP_SLE: r = (i128)a <= (i128)b; break;
    case CmpInst::ICMP_SGT: r = (i128)a > (i128)b; break;
    case CmpInst::ICMP_SGE: r = (i128)a >= (i128)b; break;
    }
    D[0] = V{r, 0};
    return;
  }
  if (in.sub == Instruction::ZExt || in.sub == Instruction::SExt) {
    V x = A(0);
    int ow = A(1).c;
    if (in.sub == Instruction::ZExt) { D[0] = P.zext(x, ow, 64); D[1] = V{0, 0}; }
    else { V s = P.sext(x, ow, 64); D[1] = P.bin(O_ASHR, s, V{63, 0}, 64); D[0] = s; }
    return;
  }
  // high part of a 64x64 product bounded by 64 bits etc. are handled concretely
  u128 a = ((u128)pick(A(1), 64) << 64) | pick(A(0), 64), b = ((u128)pick(A(3), 64) << 64) | pick(A(2), 64), r = 0;
  switch (in.sub) {
  case Instruction::Add: r = a + b; break;
  case Instruction::Sub: r = a - b; break;
  case Instruction::Mul: r = a * b; break;
  case Instruction::And: r = a & b; break;
  case Instruction::Or: r = a | b; break;
  case Instruction::Xor: r = a ^ b; break;
  case Instruction::Shl: r = b >= 128 ? 0 : a << (int)b; break;
  case Instruction::LShr: r = b >= 128 ? 0 : a >> (int)b; break;
  case Instruction::AShr: r = (u128)((i128)a >> (int)(b >= 128 ? 127 : b)); break;
  case Instruction::UDiv: r = b ? a / b : 0; break;
  case Instruction::URem: r = b ? a % b : 0; break;
  default: unsupported("i128 op");
  }
  D[0] = V{(u64)r, 0};
  D[1] = V{(u64)(r >> 64), 0};
}

// run the current path until it ends (throws PathEnd)
static void run() {
  static u64 chk = 0;
  for (;;) {
    Frame& f  = S.frames.back();
    Fn&    F  = fns[f.fn];
    V*     R  = &S.regs[f.base];
    auto   val = [&](int o) -> V { return o >= 0 ? R[o] : consts[-1 - o]; };
    // straight-line inner loop inside one frame
    for (;;) {
      Ins& in = F.code[f.pc];
      sh->exec[F.gid[f.pc]] = 1;
      if (++S.steps > optBudget) fail("nontermination", "instruction budget exceeded");
      if ((++chk & 0x3ffff) == 0) { sh->instrs += 0x40000; checkDeadline(); }
      switch (in.op) {
      case B_MOV: R[in.dst] = val(in.a); f.pc++; continue;
      case B_BIN: {
        V a = val(in.a), b = val(in.b);
        if (in.sub >= O_UDIV && in.sub <= O_SREM) {
          V z = P.eq(b, V{0, 0}, in.w);
          if (decide(z)) fail("arith", "division by zero");
        }
        if (!a.e && !b.e && in.sub <= O_SUB) R[in.dst] = V{(in.sub == O_ADD ? a.c + b.c : a.c - b.c) & maskw(in.w), 0};
        else R[in.dst] = P.bin((Op)in.sub, a, b, in.w);
        f.pc++;
        continue;
      }
      case B_ICMP: R[in.dst] = icmp(in.sub, val(in.a), val(in.b), in.w); f.pc++; continue;
      case B_ZEXT: R[in.dst] = P.zext(val(in.a), in.w2, in.w); f.pc++; continue;
      case B_SEXT: R[in.dst] = P.sext(val(in.a), in.w2, in.w); f.pc++; continue;
      case B_TRUNC: R[in.dst] = P.extract(val(in.a), 0, in.w); f.pc++; continue;
      case B_SELECT: {
        V c = val(in.a);
        if (!c.e) R[in.dst] = c.c & 1 ? val(in.b) : val(in.c);
        else {
          V t = val(in.b), e = val(in.c);
          if (in.w2 || P.isUndef(t) || P.isUndef(e)) {
            if (P.n[c.e].undef) { std::unordered_map<E, V> memo; c = dropUndef(c, memo); }
            if (c.e && P.n[c.e].undef) R[in.dst] = P.undef(in.w);
            else R[in.dst] = decide(c) ? t : e;
          } else R[in.dst] = P.ite(c, t, e, in.w);
        }
        f.pc++;
        continue;
      }
      case B_LOAD: {
        V a = val(in.a);
        if (in.sub) a = P.bin(O_ADD, a, V{(u64)in.sub, 0}, 64);
        R[in.dst] = symLoad(a, in.w, in.w2);
        f.pc++;
        continue;
      }
      case B_STORE: {
        V a = val(in.a);
        if (in.sub) a = P.bin(O_ADD, a, V{(u64)in.sub, 0}, 64);
        symStore(a, val(in.b), in.w);
        f.pc++;
        continue;
      }
      case B_GEP: {
        V a = val(in.a);
        auto& g = geps[in.aux];
        u64 off = g.off;
        for (size_t i = 0; i < g.terms.size(); i++) {
          V x = val(g.terms[i].first);
          if (g.ws[i] < 64) x = P.sext(x, g.ws[i], 64);
          if (!x.e) off += x.c * g.terms[i].second;
          else a = P.bin(O_ADD, a, P.bin(O_MUL, x, V{g.terms[i].second, 0}, 64), 64);
        }
        if (off) { if (!a.e) a.c += off; else a = P.bin(O_ADD, a, V{off, 0}, 64); }
        R[in.dst] = a;
        f.pc++;
        continue;
      }
      case B_BR: takeEdge(in.aux); continue;
      case B_CONDBR: {
        V c = val(in.a);
        bool t = c.e ? decide(c) : (c.c & 1);
        takeEdge(t ? in.b : in.c);
        continue;
      }
      case B_SWITCH: {
        V c = defined(val(in.a), "switch on uninitialised data");
        auto& sw = switches[in.aux];
        int e = sw.def;
        if (!c.e) { for (auto& k : sw.cases) if (k.first == c.c) { e = k.second; break; } }
        else {
          for (auto& k : sw.cases) if (decide(P.eq(c, V{k.first, 0}, in.w))) { e = k.second; break; }
        }
        takeEdge(e);
        continue;
      }
      case B_RET: {
        auto& l = lists[in.aux];
        V tmp[32];
        size_t n = l.size();
        if (n > 32) unsupported("large return");
        for (size_t i = 0; i < n; i++) tmp[i] = val(l[i]);
        int ci = f.call;
        markStack(f);
        S.top = f.base;
        S.frames.pop_back();
        if (S.frames.empty()) throw PathEnd{0};
        Frame& g = S.frames.back();
        Ins& cin = fns[g.fn].code[g.pc];
        if (cin.op == B_CALL && ci >= 0) {
          V* GR = &S.regs[g.base];
          CallInfo& c = calls[cin.aux];
          if (c.nret == (int)n) for (size_t i = 0; i < n; i++) GR[cin.dst + i] = tmp[i];
          afterCall(c);
        }
        goto reframe;
      }
      case B_UNREACH: fail("unreachable", "unreachable code executed (undefined behaviour)");
      case B_ALLOCA: {
        u64 n = pick(val(in.a), in.w) * val(in.b).c;
        u64 a = allocMem(n, K_STACK, true, val(in.c).c);
        if (!a) unsupported("arena exhausted");
        S.stackObjs.push_back(objs.size() - 1);
        R[in.dst] = V{a, 0};
        f.pc++;
        continue;
      }
      case B_FBIN: {
        double a = toD(pick(val(in.a), in.w), in.w), b = toD(pick(val(in.b), in.w), in.w), r = 0;
        if (in.w == 32) {
          float x = a, y = b, q = 0;
          switch (in.sub) { case Instruction::FAdd: q = x + y; break; case Instruction::FSub: q = x - y; break; case Instruction::FMul: q = x * y; break; case Instruction::FDiv: q = x / y; break; default: q = std::fmod(x, y); }
          r = q;
        } else
          switch (in.sub) { case Instruction::FAdd: r = a + b; break; case Instruction::FSub: r = a - b; break; case Instruction::FMul: r = a * b; break; case Instruction::FDiv: r = a / b; break; default: r = std::fmod(a, b); }
        R[in.dst] = V{fromD(r, in.w), 0};
        f.pc++;
        continue;
      }
      case B_FNEG: R[in.dst] = P.bin(O_XOR, val(in.a), V{1ull << (in.w - 1), 0}, in.w); f.pc++; continue;
      case B_FCMP: {
        double a = toD(pick(val(in.a), in.w), in.w), b = toD(pick(val(in.b), in.w), in.w);
        bool un = std::isnan(a) || std::isnan(b), r = false;
        switch (in.sub) {
        case CmpInst::FCMP_FALSE: r = false; break;
        case CmpInst::FCMP_OEQ: r = !un && a == b; break;
        case CmpInst::FCMP_OGT: r = !un && a > b; break;
        case CmpInst::FCMP_OGE: r = !un && a >= b; break;
        case CmpInst::FCMP_OLT: r = !un && a < b; break;
        case CmpInst::FCMP_OLE: r = !un && a <= b; break;
        case CmpInst::FCMP_ONE: r = !un && a != b; break;
        case CmpInst::FCMP_ORD: r = !un; break;
        case CmpInst::FCMP_UNO: r = un; break;
        case CmpInst::FCMP_UEQ: r = un || a == b; break;
        case CmpInst::FCMP_UGT: r = un || a > b; break;
        case CmpInst::FCMP_UGE: r = un || a >= b; break;
        case CmpInst::FCMP_ULT: r = un || a < b; break;
        case CmpInst::FCMP_ULE: r = un || a <= b; break;
        case CmpInst::FCMP_UNE: r = un || a != b; break;
        default: r = true;
        }
        R[in.dst] = V{r, 0};
        f.pc++;
        continue;
      }
      case B_FPTOSI: { double d = toD(pick(val(in.a), in.w2), in.w2); R[in.dst] = V{(u64)(i64)d & maskw(in.w), 0}; f.pc++; continue; }
      case B_FPTOUI: { double d = toD(pick(val(in.a), in.w2), in.w2); R[in.dst] = V{(u64)d & maskw(in.w), 0}; f.pc++; continue; }
      case B_SITOFP: { i64 x = sext64(pick(val(in.a), in.w2), in.w2); R[in.dst] = V{in.w == 32 ? fromD((float)x, 32) : fromD((double)x, 64), 0}; f.pc++; continue; }
      case B_UITOFP: { u64 x = pick(val(in.a), in.w2); R[in.dst] = V{in.w == 32 ? fromD((float)x, 32) : fromD((double)x, 64), 0}; f.pc++; continue; }
      case B_FPEXT: case B_FPTRUNC: { double d = toD(pick(val(in.a), in.w2), in.w2); R[in.dst] = V{fromD(d, in.w), 0}; f.pc++; continue; }
      case B_LPAD: R[in.dst] = V{S.curExc, 0}; R[in.dst + 1] = V{(u64)(u32)S.curSel, 0}; f.pc++; continue;
      case B_RESUME: {
        u64 o = val(in.a).c;
        unwindFrom(o, false);
        goto reframe;
      }
      case B_ARMW: {
        V a = val(in.a), v = val(in.b);
        u64 p = pick(a, 64);
        V old = symLoad(V{p, 0}, in.w, 0), r;
        switch (in.sub) {
        case AtomicRMWInst::Xchg: r = v; break;
        case AtomicRMWInst::Add: r = P.bin(O_ADD, old, v, in.w); break;
        case AtomicRMWInst::Sub: r = P.bin(O_SUB, old, v, in.w); break;
        case AtomicRMWInst::And: r = P.bin(O_AND, old, v, in.w); break;
        case AtomicRMWInst::Or: r = P.bin(O_OR, old, v, in.w); break;
        case AtomicRMWInst::Xor: r = P.bin(O_XOR, old, v, in.w); break;
        default: unsupported("atomicrmw");
        }
        symStore(V{p, 0}, r, in.w);
        R[in.dst] = old;
        f.pc++;
        continue;
      }
      case B_CMPXCHG: {
        u64 p = pick(val(in.a), 64);
        V old = symLoad(V{p, 0}, in.w, 0), c = P.eq(old, val(in.b), in.w);
        bool ok = decide(c);
        if (ok) symStore(V{p, 0}, val(in.c), in.w);
        R[in.dst] = old;
        R[in.dst + 1] = V{ok, 0};
        f.pc++;
        continue;
      }
      case B_FREEZE: { V a = val(in.a); R[in.dst] = P.isUndef(a) ? V{0, 0} : a; f.pc++; continue; }
      case B_I128: doI128(in, R); f.pc++; continue;
      case B_INTRIN: execIntrin(in, R); f.pc++; continue;
      case B_UNSUP: unsupported(msgs[in.aux]);
      case B_CALL: {
        CallInfo& ci = calls[in.aux];
        if (ci.builtin) { callBuiltin(ci, in, R); goto reframe; }
        int callee = ci.callee;
        if (callee < 0) {
          u64 a = pick(val(ci.calleeOp), 64);
          if (a < FBASE || a >= FBASE + 16 * (fns.size() + 1) || a % 16) fail("memory", "call through an invalid function pointer");
          callee = (a - FBASE) / 16 - 1;
          if (!fns[callee].translated) {
            auto it = builtinNames.find(fns[callee].f->getName().str());
            if (it != builtinNames.end()) unsupported("indirect call to builtin " + it->first);
            unsupported("indirect call to " + fns[callee].f->getName().str());
          }
        }
        static std::vector<V> args;
        args.clear();
        for (int o : ci.args) args.push_back(val(o));
        pushFrame(callee, in.aux, args, in.sub);
        goto reframe;
      }
      case B_NOP: f.pc++; continue;
      default: unsupported("bytecode op");
      }
    }
  reframe:;
    if (S.frames.empty()) throw PathEnd{0};
  }
}

static void callBuiltin(CallInfo& ci, Ins& in, V* R) {
  auto A = [&](int i) { int o = ci.args[i]; return o >= 0 ? R[o] : consts[-1 - o]; };
  V*   D = &R[in.dst];
  switch (ci.builtin) {
  case BI_MALLOC: case BI_NEW: { u64 n = pick(A(0), 64); if (n > (1ull << 40)) { if (ci.builtin == BI_NEW) fail("exception", "allocation of an absurd size (" + std::to_string(n) + ")"); *D = V{0, 0}; break; } u64 a = doAlloc(n, K_HEAP); S.live++; *D = V{a, 0}; break; }
  case BI_NEWALIGN: { u64 n = pick(A(0), 64), al = pick(A(1), 64); u64 a = doAlloc(n, K_HEAP, al); S.live++; *D = V{a, 0}; break; }
  case BI_CALLOC: { u64 n = pick(A(0), 64) * pick(A(1), 64); u64 a = allocMem(n, K_HEAP, false); if (!a) unsupported("arena exhausted"); S.live++; *D = V{a, 0}; break; }
  case BI_FREE: case BI_DELETE: doDelete(pick(A(0), 64)); break;
  case BI_ASSERT_FAIL: fail("assertion", "assertion failed: " + cstr(A(0).c) + " (" + cstr(A(1).c) + ":" + std::to_string(A(2).c) + ")");
  case BI_GLIBCXX_ASSERT: fail("glibcxx-assertion", "libstdc++ assertion failed: " + cstr(A(3).c) + " (" + cstr(A(2).c) + ")");
  case BI_ABORT: fail("abort", "abort/exit called");
  case BI_TERMINATE: fail("terminate", "std::terminate called");
  case BI_UBSAN: fail("ubsan", "undefined behaviour: " + ci.name);
  case BI_EXC_ALLOC: {
    u64 n = pick(A(0), 64);
    u64 a = doAlloc(n, K_EXC);
    S.excs.push_back({a, 0, 0, 0});
    *D = V{a, 0};
    break;
  }
  case BI_EXC_FREE: break;
  case BI_THROW: {
    u64 o = A(0).c;
    ExcInfo* x = excOf(o);
    if (!x) fail("internal", "throw of unknown object");
    x->ti = A(1).c;
    x->dtor = A(2).c;
    unwindFrom(o, true);
    return;
  }
  case BI_RETHROW: {
    if (S.caught.empty()) fail("terminate", "rethrow without exception");
    u64 o = S.caught.back();
    S.caught.pop_back();
    unwindFrom(o, true);
    return;
  }
  case BI_BEGIN_CATCH: {
    u64 o = A(0).c;
    ExcInfo* x = excOf(o);
    if (x) x->handlers++;
    S.caught.push_back(o);
    *D = V{o, 0};
    break;
  }
  case BI_END_CATCH: {
    if (!S.caught.empty()) {
      u64 o = S.caught.back();
      S.caught.pop_back();
      ExcInfo* x = excOf(o);
      if (x && --x->handlers == 0 && x->dtor) {
        int fi = (x->dtor - FBASE) / 16 - 1;
        x->dtor = 0;
        if (fi >= 0 && fi < (int)fns.size() && fns[fi].translated) {
          std::vector<V> a = {V{o, 0}};
          pushFrame(fi, in.aux, a, -1);
          return; // the frame returns to this call instruction, which then completes
        }
      }
    }
    break;
  }
  case BI_GET_EXC_PTR: *D = A(0); break;
  case BI_NOP: break;
  case BI_ZERO: if (ci.nret) *D = V{0, 0}; break;
  case BI_ONE: if (ci.nret) *D = V{1, 0}; break;
  case BI_SYM_U: { V v = symVar(cstr(A(0).c), false, pick(A(1), 64), pick(A(2), 64)); *D = v; break; }
  case BI_SYM_I: { V v = symVar(cstr(A(0).c), true, pick(A(1), 64), pick(A(2), 64)); *D = v; break; }
  case BI_ASSUME: symAssume(P.lnot(P.eq(A(0), V{0, 0}, 32))); break;
  case BI_ASSERT: symAssert(P.lnot(P.eq(A(0), V{0, 0}, 32)), cstr(A(1).c)); break;
  case BI_PICK: *D = V{pick(A(0), 64), 0}; break;
  case BI_OBSERVE: {
    V v = A(1);
    v = defined(v, "observed uninitialised data: " + cstr(A(0).c));
    S.obs.push_back({nameId(cstr(A(0).c)), v, 64});
    break;
  }
  case BI_COVER: {
    u32 id = nameId("cover:" + cstr(A(0).c));
    (void)id;
    // covers are emitted once per process
    static std::set<std::string> seen;
    std::string s = cstr(A(0).c);
    if (seen.insert(s).second) emit("{\"type\":\"cover\",\"label\":" + jstr(s) + "}");
    break;
  }
  case BI_LIVE: *D = V{(u64)S.live, 0}; break;
  case BI_ISSYM: *D = V{(u64)(A(0).e != 0), 0}; break;
  case BI_TRACE:
    fprintf(stderr, "TRACE %s = ", cstr(A(0).c).c_str());
    { V v = A(1); if (v.e) { P.evalBegin(); fprintf(stderr, "sym(e.g. %llu) [%llu,%llu]\n", (unsigned long long)P.evalRec(v.e, model), (unsigned long long)P.n[v.e].ulo, (unsigned long long)P.n[v.e].uhi); } else fprintf(stderr, "%lld\n", (long long)v.c); }
    break;
  case BI_MATH1: {
    int w = ci.argw[0];
    double x = toD(pick(A(0), w), w), r = 0;
    std::string nm = ci.name;
    if (w == 32 && nm.back() == 'f') nm.pop_back();
    static const std::map<std::string, double (*)(double)> f1 = {{"log", [](double y) { return std::log(y); }}, {"log2", [](double y) { return std::log2(y); }}, {"exp", [](double y) { return std::exp(y); }}, {"sqrt", [](double y) { return std::sqrt(y); }}, {"floor", [](double y) { return std::floor(y); }}, {"ceil", [](double y) { return std::ceil(y); }}, {"fabs", [](double y) { return std::fabs(y); }}, {"log10", [](double y) { return std::log10(y); }}, {"log1p", [](double y) { return std::log1p(y); }}, {"expm1", [](double y) { return std::expm1(y); }}, {"exp2", [](double y) { return std::exp2(y); }}, {"cbrt", [](double y) { return std::cbrt(y); }}, {"sin", [](double y) { return std::sin(y); }}, {"cos", [](double y) { return std::cos(y); }}, {"tan", [](double y) { return std::tan(y); }}, {"asin", [](double y) { return std::asin(y); }}, {"acos", [](double y) { return std::acos(y); }}, {"atan", [](double y) { return std::atan(y); }}, {"round", [](double y) { return std::round(y); }}, {"trunc", [](double y) { return std::trunc(y); }}, {"rint", [](double y) { return std::rint(y); }}, {"nearbyint", [](double y) { return std::nearbyint(y); }}, {"logb", [](double y) { return std::logb(y); }}, {"tgamma", [](double y) { return std::tgamma(y); }}, {"lgamma", [](double y) { return std::lgamma(y); }}};
    auto it = f1.find(nm);
    if (it == f1.end()) unsupported("call to external function " + ci.name);
    r = it->second(x);
    *D = V{fromD(r, w), 0};
    break;
  }
  case BI_MATH2: {
    int w = ci.argw[0];
    std::string nm = ci.name;
    if (w == 32 && nm.back() == 'f') nm.pop_back();
    double x = toD(pick(A(0), w), w), y = toD(pick(A(1), w), w);
    if (nm == "nextafter") { *D = V{fromD(w == 32 ? (double)std::nextafterf((float)x, (float)y) : std::nextafter(x, y), w), 0}; break; }
    static const std::map<std::string, double (*)(double, double)> f2 = {{"pow", [](double p, double q) { return std::pow(p, q); }}, {"fmod", [](double p, double q) { return std::fmod(p, q); }}, {"fmin", [](double p, double q) { return std::fmin(p, q); }}, {"fmax", [](double p, double q) { return std::fmax(p, q); }}, {"hypot", [](double p, double q) { return std::hypot(p, q); }}, {"atan2", [](double p, double q) { return std::atan2(p, q); }}, {"copysign", [](double p, double q) { return std::copysign(p, q); }}, {"remainder", [](double p, double q) { return std::remainder(p, q); }}, {"fdim", [](double p, double q) { return std::fdim(p, q); }}};
    auto it = f2.find(nm);
    if (it == f2.end()) unsupported("call to external function " + ci.name);
    *D = V{fromD(it->second(x, y), w), 0};
    break;
  }
  default: unsupported("call to external function " + ci.name);
  }
  afterCall(ci);
}
