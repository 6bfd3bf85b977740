// ---------------------------------------------------------------- translation
enum Builtin {
  BI_NONE, BI_UNKNOWN, BI_MALLOC, BI_CALLOC, BI_FREE, BI_NEW, BI_NEWALIGN, BI_DELETE, BI_ASSERT_FAIL, BI_ABORT, BI_TERMINATE, BI_EXC_ALLOC, BI_EXC_FREE, BI_THROW, BI_RETHROW,
  BI_BEGIN_CATCH, BI_END_CATCH, BI_GET_EXC_PTR, BI_UNWIND_RESUME, BI_NOP, BI_ZERO, BI_SYM_U, BI_SYM_I, BI_ASSUME, BI_ASSERT, BI_PICK, BI_OBSERVE, BI_COVER, BI_LIVE, BI_ONE,
  BI_MATH1, BI_MATH2, BI_TRACE, BI_ISSYM, BI_GLIBCXX_ASSERT, BI_UBSAN, BI_PATHDEP
};
static const std::unordered_map<std::string, int> builtinNames = {
    {"malloc", BI_MALLOC}, {"calloc", BI_CALLOC}, {"free", BI_FREE},
    {"_Znwm", BI_NEW}, {"_Znam", BI_NEW}, {"_ZnwmRKSt9nothrow_t", BI_NEW}, {"_ZnamRKSt9nothrow_t", BI_NEW},
    {"_ZnwmSt11align_val_t", BI_NEWALIGN}, {"_ZnamSt11align_val_t", BI_NEWALIGN},
    {"_ZdlPv", BI_DELETE}, {"_ZdaPv", BI_DELETE}, {"_ZdlPvm", BI_DELETE}, {"_ZdaPvm", BI_DELETE}, {"_ZdlPvRKSt9nothrow_t", BI_DELETE},
    {"_ZdlPvSt11align_val_t", BI_DELETE}, {"_ZdlPvmSt11align_val_t", BI_DELETE}, {"_ZnamSt11align_val_t", BI_NEWALIGN}, {"_ZdaPvmSt11align_val_t", BI_DELETE}, {"_ZdaPvRKSt9nothrow_t", BI_DELETE}, {"_ZdaPvSt11align_val_t", BI_DELETE},
    {"__assert_fail", BI_ASSERT_FAIL}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", BI_GLIBCXX_ASSERT}, {"abort", BI_ABORT}, {"_ZSt9terminatev", BI_TERMINATE},
    {"__cxa_pure_virtual", BI_ABORT}, {"exit", BI_ABORT}, {"_exit", BI_ABORT},
    {"__cxa_allocate_exception", BI_EXC_ALLOC}, {"__cxa_free_exception", BI_EXC_FREE}, {"__cxa_throw", BI_THROW}, {"__cxa_rethrow", BI_RETHROW},
    {"__cxa_begin_catch", BI_BEGIN_CATCH}, {"__cxa_end_catch", BI_END_CATCH}, {"__cxa_get_exception_ptr", BI_GET_EXC_PTR},
    {"__cxa_atexit", BI_ZERO}, {"_ZNSt8ios_base4InitC1Ev", BI_NOP}, {"_ZNSt8ios_base4InitD1Ev", BI_NOP}, {"_ZSt18uncaught_exceptionv", BI_ZERO},
    {"_ZSt19uncaught_exceptionsv", BI_ZERO},
    {"sym_u64", BI_SYM_U}, {"sym_i64", BI_SYM_I}, {"sym_assume", BI_ASSUME}, {"sym_assert", BI_ASSERT}, {"sym_pick", BI_PICK}, {"sym_observe", BI_OBSERVE},
    {"sym_cover", BI_COVER}, {"sym_live", BI_LIVE}, {"sym_engine", BI_ONE}, {"sym_trace", BI_TRACE}, {"sym_is_symbolic", BI_ISSYM},
    {"log", BI_MATH1}, {"log2", BI_MATH1}, {"exp", BI_MATH1}, {"sqrt", BI_MATH1}, {"floor", BI_MATH1}, {"ceil", BI_MATH1}, {"fabs", BI_MATH1}, {"pow", BI_MATH2},
    {"log10", BI_MATH1}, {"log1p", BI_MATH1}, {"expm1", BI_MATH1}, {"exp2", BI_MATH1}, {"cbrt", BI_MATH1}, {"sin", BI_MATH1}, {"cos", BI_MATH1}, {"tan", BI_MATH1}, {"asin", BI_MATH1}, {"acos", BI_MATH1}, {"atan", BI_MATH1}, {"round", BI_MATH1}, {"trunc", BI_MATH1}, {"rint", BI_MATH1}, {"nearbyint", BI_MATH1}, {"logb", BI_MATH1}, {"tgamma", BI_MATH1}, {"lgamma", BI_MATH1}, {"log10f", BI_MATH1}, {"log1pf", BI_MATH1}, {"expm1f", BI_MATH1}, {"exp2f", BI_MATH1}, {"cbrtf", BI_MATH1}, {"sinf", BI_MATH1}, {"cosf", BI_MATH1}, {"tanf", BI_MATH1}, {"asinf", BI_MATH1}, {"acosf", BI_MATH1}, {"atanf", BI_MATH1}, {"roundf", BI_MATH1}, {"truncf", BI_MATH1}, {"rintf", BI_MATH1}, {"nearbyintf", BI_MATH1}, {"logbf", BI_MATH1}, {"tgammaf", BI_MATH1}, {"lgammaf", BI_MATH1}, {"logf", BI_MATH1}, {"log2f", BI_MATH1}, {"expf", BI_MATH1}, {"sqrtf", BI_MATH1}, {"floorf", BI_MATH1}, {"ceilf", BI_MATH1}, {"fabsf", BI_MATH1}, {"fmod", BI_MATH2}, {"fmodf", BI_MATH2}, {"fmin", BI_MATH2}, {"fminf", BI_MATH2}, {"fmax", BI_MATH2}, {"fmaxf", BI_MATH2}, {"hypot", BI_MATH2}, {"hypotf", BI_MATH2}, {"atan2", BI_MATH2}, {"atan2f", BI_MATH2}, {"nextafter", BI_MATH2}, {"nextafterf", BI_MATH2}, {"copysign", BI_MATH2}, {"copysignf", BI_MATH2}, {"remainder", BI_MATH2}, {"remainderf", BI_MATH2}, {"fdim", BI_MATH2}, {"fdimf", BI_MATH2}, {"powf", BI_MATH2},
    {"pthread_mutex_lock", BI_ZERO}, {"pthread_mutex_unlock", BI_ZERO}, {"pthread_mutex_trylock", BI_ZERO}, {"pthread_rwlock_rdlock", BI_ZERO}, {"pthread_rwlock_wrlock", BI_ZERO}, {"pthread_rwlock_unlock", BI_ZERO}, {"__cxa_thread_atexit", BI_ZERO},
};

static std::map<std::pair<u64, E>, int> constMemo;
static int constOp(V v) {
  auto k = std::make_pair(v.c, v.e);
  auto it = constMemo.find(k);
  if (it != constMemo.end()) return it->second;
  consts.push_back(v);
  return constMemo[k] = -(int)consts.size();
}
static int widthOf(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  return 0;
}
struct Leaf { u64 off; int w; Type* t; };
static void flat(Type* t, u64 off, std::vector<Leaf>& out) {
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* L = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) flat(st->getElementType(i), off + L->getElementOffset(i), out);
  } else if (auto* at = dyn_cast<ArrayType>(t)) {
    u64 sz = DL->getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) flat(at->getElementType(), off + i * sz, out);
  } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    u64 sz = DL->getTypeStoreSize(vt->getElementType());
    for (u64 i = 0; i < vt->getNumElements(); i++) flat(vt->getElementType(), off + i * sz, out);
  } else if (t->isIntegerTy(128)) {
    out.push_back({off, 64, t});
    out.push_back({off + 8, 64, t});
  } else if (t->isVoidTy()) {
  } else {
    int w = widthOf(t);
    out.push_back({off, w > 64 ? 0 : w, t});
  }
}
static std::vector<Leaf> leaves(Type* t) {
  std::vector<Leaf> l;
  flat(t, 0, l);
  return l;
}
static int nslots(Type* t) {
  if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) return 0;
  return leaves(t).size();
}
static u64 fnAddr(const Function* f) {
  auto it = fnIndex.find(f);
  int  i;
  if (it == fnIndex.end()) {
    i = fns.size();
    fnIndex[f] = i;
    fns.emplace_back();
    fns.back().f = const_cast<Function*>(f);
  } else i = it->second;
  return FBASE + 16 * (u64)(i + 1);
}
static void constVals(const Constant* c, std::vector<V>& out);
static V constVal(const Constant* c) {
  std::vector<V> v;
  constVals(c, v);
  if (v.size() != 1) { errs() << "const with " << v.size() << " slots: " << *c << "\n"; exit(2); }
  return v[0];
}
static void constVals(const Constant* c, std::vector<V>& out) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    const APInt& a = ci->getValue();
    if (a.getBitWidth() == 128) { out.push_back({a.getRawData()[0], 0}); out.push_back({a.getRawData()[1], 0}); return; }
    if (a.getBitWidth() > 64) { errs() << "wide const\n"; exit(2); }
    out.push_back({a.getZExtValue(), 0});
    return;
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    if (t->isDoubleTy() || t->isFloatTy()) { out.push_back({cf->getValueAPF().bitcastToAPInt().getZExtValue(), 0}); return; }
    out.push_back({0, 0});
    return;
  }
  if (isa<UndefValue>(c)) {
    for (auto& l : leaves(t)) out.push_back(P.undef(l.w ? l.w : 64));
    return;
  }
  if (c->isNullValue()) {
    for (size_t i = 0, n = leaves(t).size(); i < n; i++) out.push_back({0, 0});
    return;
  }
  if (auto* f = dyn_cast<Function>(c)) { out.push_back({fnAddr(f), 0}); return; }
  if (auto* g = dyn_cast<GlobalVariable>(c)) {
    auto it = gaddr.find(g);
    if (it == gaddr.end()) { errs() << "global without address " << g->getName() << "\n"; exit(2); }
    out.push_back({it->second, 0});
    return;
  }
  if (auto* ga = dyn_cast<GlobalAlias>(c)) { constVals(ga->getAliasee(), out); return; }
  if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
    for (unsigned i = 0; i < cds->getNumElements(); i++) constVals(cds->getElementAsConstant(i), out);
    return;
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    for (auto& op : ca->operands()) constVals(cast<Constant>(op), out);
    return;
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0);
      auto* gep = cast<GEPOperator>(ce);
      if (!gep->accumulateConstantOffset(*DL, off)) { errs() << "cgep\n"; exit(2); }
      V b = constVal(ce->getOperand(0));
      out.push_back({b.c + off.getZExtValue(), 0});
      return;
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt: {
      V b = constVal(ce->getOperand(0));
      out.push_back({b.c & maskw(widthOf(t)), 0});
      return;
    }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: {
      V a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
      Op o = ce->getOpcode() == Instruction::Add ? O_ADD : ce->getOpcode() == Instruction::Sub ? O_SUB : ce->getOpcode() == Instruction::Mul ? O_MUL : ce->getOpcode() == Instruction::And ? O_AND
             : ce->getOpcode() == Instruction::Or ? O_OR : ce->getOpcode() == Instruction::Xor ? O_XOR : ce->getOpcode() == Instruction::Shl ? O_SHL : O_LSHR;
      out.push_back(P.bin(o, a, b, widthOf(t)));
      return;
    }
    case Instruction::ICmp: {
      V a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
      bool r = false;
      switch (ce->getPredicate()) {
      case CmpInst::ICMP_EQ: r = a.c == b.c; break;
      case CmpInst::ICMP_NE: r = a.c != b.c; break;
      case CmpInst::ICMP_ULT: r = a.c < b.c; break;
      case CmpInst::ICMP_UGT: r = a.c > b.c; break;
      default: errs() << "cicmp\n"; exit(2);
      }
      out.push_back({r, 0});
      return;
    }
    case Instruction::Select: {
      V a = constVal(ce->getOperand(0));
      constVals(ce->getOperand(a.c ? 1 : 2), out);
      return;
    }
    default: break;
    }
  }
  if (isa<BlockAddress>(c)) { out.push_back({0, 0}); return; }
  errs() << "unsupported constant " << *c << "\n";
  exit(2);
}
static void initGlobal(const Constant* c, u64 addr) {
  Type* t = c->getType();
  if (isa<UndefValue>(c)) return; // zero
  if (c->isNullValue()) return;
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* L = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) initGlobal(c->getAggregateElement(i), addr + L->getElementOffset(i));
    return;
  }
  if (isa<ArrayType>(t) || isa<FixedVectorType>(t)) {
    Type* et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<FixedVectorType>(t)->getElementType();
    u64   n  = isa<ArrayType>(t) ? cast<ArrayType>(t)->getNumElements() : cast<FixedVectorType>(t)->getNumElements();
    u64   sz = DL->getTypeAllocSize(et);
    for (u64 i = 0; i < n; i++) initGlobal(c->getAggregateElement(i), addr + i * sz);
    return;
  }
  std::vector<V> v;
  constVals(c, v);
  auto l = leaves(t);
  for (size_t i = 0; i < v.size(); i++) {
    if (l[i].w == 0) continue;
    memcpy((void*)(addr + l[i].off), &v[i].c, (l[i].w + 7) / 8);
  }
}

struct Tr {
  Fn&       F;
  int       next = 0;
  std::unordered_map<const Value*, int> slot;
  std::unordered_map<const BasicBlock*, int> start;
  std::vector<std::pair<int, const BasicBlock*>> patches; // edge -> target
  u32       curGid = 0;
  const Instruction* curI = nullptr;
  Tr(Fn& f) : F(f) {}

  int slotOf(const Value* v) {
    auto it = slot.find(v);
    if (it != slot.end()) return it->second;
    int s = next;
    next += std::max(1, nslots(v->getType()));
    slot[v] = s;
    return s;
  }
  std::vector<int> ops(const Value* v) {
    std::vector<int> r;
    if (auto* c = dyn_cast<Constant>(v)) {
      std::vector<V> cv;
      constVals(c, cv);
      for (auto& x : cv) r.push_back(constOp(x));
      return r;
    }
    int s = slotOf(v);
    for (int i = 0, n = nslots(v->getType()); i < n; i++) r.push_back(s + i);
    return r;
  }
  int op(const Value* v) {
    auto o = ops(v);
    if (o.size() != 1) return constOp({0, 0});
    return o[0];
  }
  Ins& emit(BOp o, int w = 0, int dst = 0, int a = 0, int b = 0, int c = 0) {
    Ins i{};
    i.op = o; i.w = w; i.dst = dst; i.a = a; i.b = b; i.c = c;
    F.code.push_back(i);
    F.gid.push_back(curGid);
    F.src.push_back(curI);
    return F.code.back();
  }
  void unsup(const std::string& m) {
    msgs.push_back(m);
    emit(B_UNSUP).aux = msgs.size() - 1;
  }
  int edge(const BasicBlock* from, const BasicBlock* to) {
    EdgeInfo e;
    e.target = -1;
    for (auto& phi : to->phis()) {
      int  d = slotOf(&phi);
      auto s = ops(phi.getIncomingValueForBlock(from));
      for (size_t i = 0; i < s.size(); i++)
        if (d + (int)i != s[i]) e.copies.push_back({d + i, s[i]});
    }
    edges.push_back(e);
    patches.push_back({edges.size() - 1, to});
    return edges.size() - 1;
  }
  void run();
  void ins(const Instruction& I);
  void call(const CallBase& C);
  bool intrinsic(const CallBase& C, const Function* f);
};

static Op binOp(unsigned o) {
  switch (o) {
  case Instruction::Add: return O_ADD;
  case Instruction::Sub: return O_SUB;
  case Instruction::Mul: return O_MUL;
  case Instruction::UDiv: return O_UDIV;
  case Instruction::SDiv: return O_SDIV;
  case Instruction::URem: return O_UREM;
  case Instruction::SRem: return O_SREM;
  case Instruction::Shl: return O_SHL;
  case Instruction::LShr: return O_LSHR;
  case Instruction::AShr: return O_ASHR;
  case Instruction::And: return O_AND;
  case Instruction::Or: return O_OR;
  case Instruction::Xor: return O_XOR;
  default: return O_NONE;
  }
}
static std::string istr(const Instruction& I) {
  std::string s;
  raw_string_ostream o(s);
  I.print(o);
  return s.substr(0, 200);
}

void Tr::ins(const Instruction& I) {
  Type* T = I.getType();
  int   w = T->isVoidTy() ? 0 : widthOf(T->getScalarType());
  switch (I.getOpcode()) {
  case Instruction::PHI: return;
  case Instruction::Ret: {
    auto& R = cast<ReturnInst>(I);
    std::vector<int> l;
    if (R.getReturnValue()) l = ops(R.getReturnValue());
    lists.push_back(l);
    emit(B_RET).aux = lists.size() - 1;
    return;
  }
  case Instruction::Br: {
    auto& B = cast<BranchInst>(I);
    if (B.isUnconditional()) { int e = edge(I.getParent(), B.getSuccessor(0)); emit(B_BR).aux = e; }
    else {
      int e0 = edge(I.getParent(), B.getSuccessor(0)), e1 = edge(I.getParent(), B.getSuccessor(1));
      int c = op(B.getCondition());
      Ins& n = emit(B_CONDBR, 1, 0, c);
      n.b = e0; n.c = e1;
    }
    return;
  }
  case Instruction::Switch: {
    auto& W = cast<SwitchInst>(I);
    SwitchInfo s;
    for (auto& c : W.cases()) s.cases.push_back({c.getCaseValue()->getValue().getZExtValue(), edge(I.getParent(), c.getCaseSuccessor())});
    s.def = edge(I.getParent(), W.getDefaultDest());
    switches.push_back(s);
    int aux = switches.size() - 1;
    emit(B_SWITCH, widthOf(W.getCondition()->getType()), 0, op(W.getCondition())).aux = aux;
    return;
  }
  case Instruction::Unreachable: emit(B_UNREACH); return;
  case Instruction::Alloca: {
    auto& A = cast<AllocaInst>(I);
    u64   sz = DL->getTypeAllocSize(A.getAllocatedType());
    int   n  = op(A.getArraySize());
    int   d  = slotOf(&I);
    Ins&  x  = emit(B_ALLOCA, widthOf(A.getArraySize()->getType()), d, n, constOp({sz, 0}), constOp({A.getAlign().value(), 0}));
    (void)x;
    return;
  }
  case Instruction::Load: {
    auto& L = cast<LoadInst>(I);
    auto  lv = leaves(T);
    int   d = slotOf(&I), p = op(L.getPointerOperand());
    for (size_t i = 0; i < lv.size(); i++) {
      if (!lv[i].w) { unsup("load " + istr(I)); return; }
      Ins& n = emit(B_LOAD, lv[i].w, d + i, p);
      n.sub = lv[i].off;
      n.w2 = lv[i].t->isPointerTy();
    }
    return;
  }
  case Instruction::Store: {
    auto& St = cast<StoreInst>(I);
    auto  lv = leaves(St.getValueOperand()->getType());
    auto  v  = ops(St.getValueOperand());
    int   p  = op(St.getPointerOperand());
    for (size_t i = 0; i < lv.size(); i++) {
      if (!lv[i].w) { unsup("store " + istr(I)); return; }
      emit(B_STORE, lv[i].w, 0, p, v[i]).sub = lv[i].off;
    }
    return;
  }
  case Instruction::GetElementPtr: {
    auto& G = cast<GetElementPtrInst>(I);
    if (T->isVectorTy()) { unsup("vector gep"); return; }
    GepInfo gi;
    gi.off = 0;
    for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
      Value* idx = it.getOperand();
      if (StructType* st = it.getStructTypeOrNull()) {
        gi.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
      } else {
        u64 sz = DL->getTypeAllocSize(it.getIndexedType());
        if (auto* ci = dyn_cast<ConstantInt>(idx)) gi.off += sz * (u64)ci->getSExtValue();
        else { gi.terms.push_back({op(idx), sz}); gi.ws.push_back(widthOf(idx->getType())); }
      }
    }
    geps.push_back(gi);
    int aux = geps.size() - 1;
    emit(B_GEP, 64, slotOf(&I), op(G.getPointerOperand())).aux = aux;
    return;
  }
  case Instruction::ICmp: {
    auto& C = cast<ICmpInst>(I);
    auto  a = ops(C.getOperand(0)), b = ops(C.getOperand(1));
    Type* ot = C.getOperand(0)->getType();
    int   d = slotOf(&I);
    if (ot->isIntegerTy(128)) {
      std::vector<int> l = {a[0], a[1], b[0], b[1]};
      lists.push_back(l);
      Ins& n = emit(B_I128, 1, d);
      n.sub = 1000 + C.getPredicate();
      n.aux = lists.size() - 1;
      return;
    }
    int ow = widthOf(ot->getScalarType());
    for (size_t i = 0; i < a.size(); i++) emit(B_ICMP, ow, d + i, a[i], b[i]).sub = C.getPredicate();
    return;
  }
  case Instruction::FCmp: {
    auto& C = cast<FCmpInst>(I);
    auto  a = ops(C.getOperand(0)), b = ops(C.getOperand(1));
    int   d = slotOf(&I), ow = widthOf(C.getOperand(0)->getType()->getScalarType());
    if (!ow) { unsup("fcmp " + istr(I)); return; }
    for (size_t i = 0; i < a.size(); i++) emit(B_FCMP, ow, d + i, a[i], b[i]).sub = C.getPredicate();
    return;
  }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
    auto a = ops(I.getOperand(0)), b = ops(I.getOperand(1));
    int  d = slotOf(&I);
    if (!w) { unsup("fp " + istr(I)); return; }
    for (size_t i = 0; i < a.size(); i++) emit(B_FBIN, w, d + i, a[i], b[i]).sub = I.getOpcode();
    return;
  }
  case Instruction::FNeg: {
    auto a = ops(I.getOperand(0));
    int  d = slotOf(&I);
    if (!w) { unsup("fneg " + istr(I)); return; }
    for (size_t i = 0; i < a.size(); i++) emit(B_FNEG, w, d + i, a[i]);
    return;
  }
  case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
    auto  a = ops(I.getOperand(0));
    Type* ot = I.getOperand(0)->getType()->getScalarType();
    int   ow = widthOf(ot), d = slotOf(&I);
    if (T->isIntegerTy(128)) {
      lists.push_back({a[0], constOp({(u64)ow, 0})});
      Ins& n = emit(B_I128, 128, d);
      n.sub = I.getOpcode();
      n.aux = lists.size() - 1;
      return;
    }
    if (ot->isIntegerTy(128)) { // trunc
      if (w == 64) emit(B_MOV, 64, d, a[0]);
      else { Ins& n = emit(B_TRUNC, w, d, a[0]); n.w2 = 64; }
      return;
    }
    for (size_t i = 0; i < a.size(); i++) {
      Ins& n = emit(I.getOpcode() == Instruction::ZExt ? B_ZEXT : I.getOpcode() == Instruction::SExt ? B_SEXT : B_TRUNC, w, d + i, a[i]);
      n.w2 = ow;
    }
    return;
  }
  case Instruction::PtrToInt: case Instruction::IntToPtr: {
    int a = op(I.getOperand(0)), d = slotOf(&I), ow = widthOf(I.getOperand(0)->getType());
    if (ow == w) emit(B_MOV, w, d, a);
    else { Ins& n = emit(ow < w ? B_ZEXT : B_TRUNC, w, d, a); n.w2 = ow; }
    return;
  }
  case Instruction::BitCast: {
    auto a = ops(I.getOperand(0));
    auto la = leaves(I.getOperand(0)->getType()), lb = leaves(T);
    int  d = slotOf(&I);
    if (la.size() == lb.size()) { for (size_t i = 0; i < a.size(); i++) emit(B_MOV, lb[i].w, d + i, a[i]); return; }
    unsup("bitcast " + istr(I));
    return;
  }
  case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
    auto a = ops(I.getOperand(0));
    int  ow = widthOf(I.getOperand(0)->getType()->getScalarType()), d = slotOf(&I);
    if (!ow || !w || ow > 64 || w > 64) { unsup("fp cast " + istr(I)); return; }
    BOp o = I.getOpcode() == Instruction::FPToSI ? B_FPTOSI : I.getOpcode() == Instruction::FPToUI ? B_FPTOUI : I.getOpcode() == Instruction::SIToFP ? B_SITOFP
            : I.getOpcode() == Instruction::UIToFP ? B_UITOFP : I.getOpcode() == Instruction::FPExt ? B_FPEXT : B_FPTRUNC;
    for (size_t i = 0; i < a.size(); i++) { Ins& n = emit(o, w, d + i, a[i]); n.w2 = ow; }
    return;
  }
  case Instruction::Select: {
    auto  c = ops(I.getOperand(0)), a = ops(I.getOperand(1)), b = ops(I.getOperand(2));
    auto  lv = leaves(T);
    int   d = slotOf(&I);
    for (size_t i = 0; i < a.size(); i++) {
      Ins& n = emit(B_SELECT, lv[i].w, d + i, c.size() == 1 ? c[0] : c[i], a[i], b[i]);
      n.w2 = lv[i].t->isPointerTy();
    }
    return;
  }
  case Instruction::ExtractValue: {
    auto& X = cast<ExtractValueInst>(I);
    auto  a = ops(X.getAggregateOperand());
    Type* t = X.getAggregateOperand()->getType();
    int   k = 0;
    for (unsigned idx : X.indices()) {
      if (auto* st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < idx; i++) k += nslots(st->getElementType(i)); t = st->getElementType(idx); }
      else { t = cast<ArrayType>(t)->getElementType(); k += idx * nslots(t); }
    }
    int d = slotOf(&I);
    auto lv = leaves(T);
    for (size_t i = 0; i < lv.size(); i++) emit(B_MOV, lv[i].w, d + i, a[k + i]);
    return;
  }
  case Instruction::InsertValue: {
    auto& X = cast<InsertValueInst>(I);
    auto  a = ops(X.getAggregateOperand()), v = ops(X.getInsertedValueOperand());
    Type* t = X.getAggregateOperand()->getType();
    int   k = 0;
    for (unsigned idx : X.indices()) {
      if (auto* st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < idx; i++) k += nslots(st->getElementType(i)); t = st->getElementType(idx); }
      else { t = cast<ArrayType>(t)->getElementType(); k += idx * nslots(t); }
    }
    int d = slotOf(&I);
    auto lv = leaves(T);
    for (int i = 0; i < (int)lv.size(); i++) emit(B_MOV, lv[i].w, d + i, (i >= k && i < k + (int)v.size()) ? v[i - k] : a[i]);
    return;
  }
  case Instruction::ExtractElement: {
    auto a = ops(I.getOperand(0));
    if (auto* ci = dyn_cast<ConstantInt>(I.getOperand(1))) { emit(B_MOV, w, slotOf(&I), a[ci->getZExtValue()]); return; }
    unsup("extractelement");
    return;
  }
  case Instruction::InsertElement: {
    auto a = ops(I.getOperand(0));
    if (auto* ci = dyn_cast<ConstantInt>(I.getOperand(2))) {
      int d = slotOf(&I), v = op(I.getOperand(1));
      for (size_t i = 0; i < a.size(); i++) emit(B_MOV, w, d + i, i == ci->getZExtValue() ? v : a[i]);
      return;
    }
    unsup("insertelement");
    return;
  }
  case Instruction::ShuffleVector: {
    auto& X = cast<ShuffleVectorInst>(I);
    auto  a = ops(I.getOperand(0)), b = ops(I.getOperand(1));
    int   d = slotOf(&I);
    auto  m = X.getShuffleMask();
    for (size_t i = 0; i < m.size(); i++) emit(B_MOV, w, d + i, m[i] < 0 ? constOp({0, 0}) : (m[i] < (int)a.size() ? a[m[i]] : b[m[i] - a.size()]));
    return;
  }
  case Instruction::Freeze: {
    auto a = ops(I.getOperand(0));
    auto lv = leaves(T);
    int  d = slotOf(&I);
    for (size_t i = 0; i < a.size(); i++) emit(B_FREEZE, lv[i].w, d + i, a[i]);
    return;
  }
  case Instruction::LandingPad: {
    auto& L = cast<LandingPadInst>(I);
    LpadInfo li;
    li.cleanup = L.isCleanup();
    for (unsigned i = 0; i < L.getNumClauses(); i++) {
      li.isCatch.push_back(L.isCatch(i));
      Constant* c = L.getClause(i);
      li.catches.push_back(L.isCatch(i) ? dyn_cast<GlobalVariable>(c->stripPointerCasts()) : nullptr);
    }
    lpads.push_back(li);
    emit(B_LPAD, 64, slotOf(&I)).aux = lpads.size() - 1;
    return;
  }
  case Instruction::Resume: {
    auto a = ops(I.getOperand(0));
    emit(B_RESUME, 64, 0, a[0], a[1]);
    return;
  }
  case Instruction::AtomicRMW: {
    auto& A = cast<AtomicRMWInst>(I);
    emit(B_ARMW, w, slotOf(&I), op(A.getPointerOperand()), op(A.getValOperand())).sub = A.getOperation();
    return;
  }
  case Instruction::AtomicCmpXchg: {
    auto& A = cast<AtomicCmpXchgInst>(I);
    emit(B_CMPXCHG, widthOf(A.getCompareOperand()->getType()), slotOf(&I), op(A.getPointerOperand()), op(A.getCompareOperand()), op(A.getNewValOperand()));
    return;
  }
  case Instruction::Fence: return;
  case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I)); return;
  default: break;
  }
  if (Op o = binOp(I.getOpcode())) {
    auto a = ops(I.getOperand(0)), b = ops(I.getOperand(1));
    int  d = slotOf(&I);
    if (T->isIntegerTy(128)) {
      lists.push_back({a[0], a[1], b[0], b[1]});
      Ins& n = emit(B_I128, 128, d);
      n.sub = I.getOpcode();
      n.aux = lists.size() - 1;
      return;
    }
    if (!w || w > 64) { unsup("bin " + istr(I)); return; }
    for (size_t i = 0; i < a.size(); i++) emit(B_BIN, w, d + i, a[i], b[i]).sub = o;
    return;
  }
  unsup(istr(I));
}

bool Tr::intrinsic(const CallBase& C, const Function* f) {
  Intrinsic::ID id = f->getIntrinsicID();
  if (id == Intrinsic::not_intrinsic) return false;
  switch (id) {
  case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_assign: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
  case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::var_annotation:
    return true;
  case Intrinsic::stacksave: emit(B_MOV, 64, slotOf(&C), constOp({0, 0})); return true;
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address:
  case Intrinsic::ptr_annotation: case Intrinsic::annotation: case Intrinsic::ssa_copy:
    emit(B_MOV, widthOf(C.getType()), slotOf(&C), op(C.getArgOperand(0)));
    return true;
  case Intrinsic::is_constant: emit(B_MOV, 1, slotOf(&C), constOp({0, 0})); return true;
  case Intrinsic::objectsize: emit(B_MOV, widthOf(C.getType()), slotOf(&C), constOp({maskw(widthOf(C.getType())), 0})); return true;
  case Intrinsic::eh_typeid_for: {
    auto* g = dyn_cast<GlobalVariable>(C.getArgOperand(0)->stripPointerCasts());
    int   t = g ? tiId[g] : 0;
    if (g && !t) { t = tiId.size(); tiId[g] = t; }
    emit(B_MOV, 32, slotOf(&C), constOp({(u64)t, 0}));
    return true;
  }
  default: break;
  }
  // generic: per-element for vectors of simple intrinsics is not needed
  std::vector<int> l;
  std::vector<int> ww;
  for (auto& a : C.args()) {
    if (a->getType()->isMetadataTy()) { l.push_back(constOp({0, 0})); continue; }
    auto o = ops(a);
    if (o.size() != 1) { unsup("intrinsic " + istr(C)); return true; }
    l.push_back(o[0]);
  }
  int w = C.arg_size() ? widthOf(C.getArgOperand(0)->getType()) : 0;
  if (id == Intrinsic::memset) w = 8;
  lists.push_back(l);
  int d = C.getType()->isVoidTy() ? 0 : slotOf(&C);
  Ins& n = emit(B_INTRIN, w, d);
  n.sub = id;
  n.aux = lists.size() - 1;
  return true;
}

void Tr::call(const CallBase& C) {
  if (C.isInlineAsm()) {
    if (C.getType()->isVoidTy()) return; // compiler barriers
    unsup("inline asm");
    return;
  }
  const Function* f = dyn_cast<Function>(C.getCalledOperand()->stripPointerCastsAndAliases());
  const InvokeInst* inv = dyn_cast<InvokeInst>(&C);
  CallInfo ci;
  if (inv) {
    ci.normal = edge(C.getParent(), inv->getNormalDest());
    ci.unwind = edge(C.getParent(), inv->getUnwindDest());
  }
  if (f && f->isIntrinsic()) {
    intrinsic(C, f);
    if (inv) emit(B_BR).aux = ci.normal;
    return;
  }
  ci.nret = nslots(C.getType());
  for (unsigned i = 0; i < C.arg_size(); i++) {
    auto o = ops(C.getArgOperand(i));
    auto l = leaves(C.getArgOperand(i)->getType());
    for (size_t k = 0; k < o.size(); k++) {
      ci.args.push_back(o[k]);
      ci.argw.push_back(l[k].w);
    }
  }
  // byval arguments: recorded as list (arg index, size)
  std::vector<int> bv;
  {
    int k = 0;
    for (unsigned i = 0; i < C.arg_size(); i++) {
      if (C.paramHasAttr(i, Attribute::ByVal)) { bv.push_back(k); bv.push_back(DL->getTypeAllocSize(C.getParamByValType(i))); }
      k += nslots(C.getArgOperand(i)->getType());
    }
  }
  int aux = -1;
  if (!bv.empty()) { lists.push_back(bv); aux = lists.size() - 1; }
  if (f) {
    ci.name = f->getName().str();
    auto it = builtinNames.find(ci.name);
    if (it != builtinNames.end()) ci.builtin = it->second;
    else if (f->isDeclaration()) ci.builtin = StringRef(ci.name).starts_with("__ubsan_handle") ? BI_UBSAN : BI_UNKNOWN;
    else { fnAddr(f); ci.callee = fnIndex[f]; }
  } else ci.calleeOp = op(C.getCalledOperand());
  int d = ci.nret ? slotOf(&C) : 0;
  calls.push_back(ci);
  Ins& n = emit(B_CALL, 0, d);
  n.aux = calls.size() - 1;
  n.sub = aux;
}

void Tr::run() {
  Function* f = F.f;
  for (auto& a : f->args()) slotOf(&a);
  for (auto& bb : *f) {
    start[&bb] = F.code.size();
    for (auto& I : bb) {
      curI = &I;
      extern std::unordered_map<const Instruction*, u32> insGid;
      curGid = insGid[&I];
      ins(I);
    }
  }
  for (auto& p : patches) edges[p.first].target = start[p.second];
  F.nslots = next;
  F.translated = true;
}
std::unordered_map<const Instruction*, u32> insGid;

static void translateAll(const Function* entry) {
  fnAddr(entry);
  for (size_t i = 0; i < fns.size(); i++) { // grows while translating
    Function* f = fns[i].f;
    if (f->isDeclaration()) continue;
    Fn tmp;
    tmp.f = f;
    Tr t(tmp);
    t.run();
    fns[i] = std::move(tmp);
  }
}
