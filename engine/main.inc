// ---------------------------------------------------------------- exploration driver
static void resetStart() { lastFork = now(); }

static void explore(bool resumed) {
  for (;;) {
    bool end = false;
    try {
      run();
    } catch (PathEnd& e) {
      sh->instrs += 0;
      if (e.kind == 0) pathDone();
      else if (e.kind == 1) sh->pathsInfeasible++;
      else if (e.kind == 3) end = true;
    }
    if (sh->stop || end) { if (!choices.empty()) sh->incomplete = 1; break; }
    if (choices.empty()) break;
    Choice c = std::move(choices.back());
    choices.pop_back();
    u64 lim = choices.empty() ? 0 : choices.back().bump;
    resumeFrom(std::move(c), lim);
  }
  (void)resumed;
}
static void childMain(Choice c) {
  resetStart();
  resumeFrom(std::move(c), 0);
  explore(true);
  sh->tokens++;
  sh->active--;
  _exit(0);
}

int main(int argc, char** argv) {
  std::vector<std::string> in;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "-o") optOut = nx();
    else if (a == "-e") optEntry = nx();
    else if (a == "-j") optJobs = stoi(nx());
    else if (a == "-t") optTime = stod(nx());
    else if (a == "-b") optBudget = stoull(nx());
    else if (a == "-s") optSeed = stoull(nx());
    else if (a == "--traces") optMaxTraces = stoi(nx());
    else if (a == "--findings") optMaxFindings = stoi(nx());
    else if (a == "--solver") optSolver = stoi(nx());
    else if (a == "--src") optSrcPrefix = nx();
    else if (a == "--arena") optArena = stoull(nx()) << 20;
    else if (a == "-v") optVerbose++;
    else in.push_back(a);
  }
  struct rlimit rl;
  getrlimit(RLIMIT_STACK, &rl);
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (512ull << 20)) {
    rl.rlim_cur = (rl.rlim_max == RLIM_INFINITY || rl.rlim_max > (1ull << 30)) ? (1ull << 30) : rl.rlim_max;
    if (setrlimit(RLIMIT_STACK, &rl) == 0 && !getenv("GSYM_REEXEC")) { setenv("GSYM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
  }
  tStart = now();
  SMDiagnostic err;
  if (in.empty()) { fprintf(stderr, "usage\n"); return 2; }
  mod = parseIRFile(in[0], err, ctx);
  if (!mod) { err.print("gsym", errs()); return 2; }
  DL = &mod->getDataLayout();
  for (auto& f : *mod)
    for (auto& I : instructions(f)) { insGid[&I] = allIns.size(); allIns.push_back(&I); }
  size_t shsz = sizeof(Shared) + allIns.size() + 64;
  sh = (Shared*)mmap(nullptr, shsz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (sh) Shared();
  auto mm = [&](u64 base, u64 sz) {
    void* p = mmap((void*)base, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)base) { perror("mmap"); exit(2); }
  };
  mm(ABASE, optArena + 4096);
  mm(SBASE, (optArena + 4096) * 4);
  mm(MBASE, optArena / 4 + 4096);
  undef8 = P.mk(O_UNDEF, 8);
  objs.push_back(Obj{0, 0, K_GLOBAL, false, 0});
  bumpPtr = ABASE + 4096;
  const Function* entry = mod->getFunction(optEntry);
  if (!entry || entry->isDeclaration()) { fprintf(stderr, "no entry %s\n", optEntry.c_str()); return 2; }
  for (auto& g : mod->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 64;
    if (g.isDeclaration()) sz = std::max<u64>(sz, 64);
    gaddr[&g] = allocMem(sz, K_GLOBAL, false, g.getAlign() ? g.getAlign()->value() : 16);
    addrTi[gaddr[&g]] = &g;
  }
  for (auto& g : mod->globals())
    if (g.hasInitializer() && gaddr.count(&g)) initGlobal(g.getInitializer(), gaddr[&g]);
  // constructors
  std::vector<const Function*> ctors;
  if (auto* gc = mod->getGlobalVariable("llvm.global_ctors"))
    if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (auto& o : ca->operands())
        if (auto* f = dyn_cast<Function>(cast<Constant>(o)->getAggregateElement(1u))) ctors.push_back(f);
  for (auto* f : ctors) fnAddr(f);
  translateAll(entry);
  int nb = 0;
  for (auto& f : fns) nb += f.code.size();
  fout = fopen(optOut.c_str(), "w");
  if (!fout) { perror("out"); return 2; }
  fclose(fout);
  fout = fopen(optOut.c_str(), "a");
  fcntl(fileno(fout), F_SETFL, O_APPEND | O_WRONLY);

  int pipefd[2];
  if (pipe(pipefd)) return 2;
  sh->tokens = optJobs - 1;
  sh->active = 1;
  sh->procs = 1;
  signal(SIGCHLD, SIG_IGN);
  double tLoad = now() - tStart;
  pid_t pid = fork();
  if (pid == 0) {
    close(pipefd[0]);
    setpgid(0, 0);
    solverInit();
    resetStart();
    // run constructors concretely, then the entry
    for (auto* f : ctors) {
      S.regs.resize(1 << 14);
      pushFrame(fnIndex[f], -1, {}, -1);
      try { run(); } catch (PathEnd& e) { if (e.kind != 0) { fprintf(stderr, "constructor failed\n"); sh->fatal++; } }
      S = State();
    }
    S.live = 0;
    S.regs.resize(1 << 14);
    try { pushFrame(fnIndex[entry], -1, {}, -1); } catch (PathEnd&) { sh->fatal++; }
    explore(false);
    sh->tokens++;
    sh->active--;
    _exit(0);
  }
  close(pipefd[1]);
  // wait for EOF (all explorers gone); enforce the deadline from outside as well
  char b;
  for (;;) {
    fd_set fs;
    FD_ZERO(&fs);
    FD_SET(pipefd[0], &fs);
    struct timeval tv = {1, 0};
    int r = select(pipefd[0] + 1, &fs, nullptr, nullptr, &tv);
    if (r > 0 && read(pipefd[0], &b, 1) <= 0) break;
    if (now() - tStart > optTime + 10) { sh->incomplete = 1; sh->stop = 1; kill(-pid, SIGKILL); sh->active = 0; break; }
    static int tick = 0;
    if (optVerbose && ++tick % 10 == 0) fprintf(stderr, "[%.0fs] paths %llu infeasible %llu forks %llu queries %llu active %d findings %d\n", now() - tStart, (unsigned long long)sh->paths, (unsigned long long)sh->pathsInfeasible,
                            (unsigned long long)sh->forks, (unsigned long long)sh->queries, sh->active.load(), sh->findings.load());
  }
  if (sh->active > 0) { sh->fatal++; fprintf(stderr, "gsym: %d explorer(s) crashed\n", sh->active.load()); }
  // coverage: functions and lines of the library encoded
  std::map<std::string, std::set<std::string>> fnsBy; // file -> functions
  std::map<std::string, std::set<unsigned>>    linesHit, linesAll;
  for (size_t i = 0; i < allIns.size(); i++) {
    const DILocation* d = allIns[i]->getDebugLoc().get();
    for (; d; d = d->getInlinedAt()) {
      std::string file = d->getDirectory().empty() || d->getFilename().starts_with("/") ? d->getFilename().str() : (d->getDirectory() + "/" + d->getFilename()).str();
      size_t p = file.find(optSrcPrefix);
      if (p == std::string::npos) continue;
      std::string rel = file.substr(p + optSrcPrefix.size());
      if (d->getLine()) linesAll[rel].insert(d->getLine());
      if (sh->exec[i]) {
        if (d->getLine()) linesHit[rel].insert(d->getLine());
        if (auto* sp = d->getScope()->getSubprogram()) fnsBy[rel].insert(sp->getName().str() + ":" + std::to_string(sp->getLine()));
      }
    }
  }
  std::string cov = "{";
  bool first = true;
  for (auto& kv : fnsBy) {
    if (!first) cov += ",";
    first = false;
    cov += jstr(kv.first) + ":{\"functions\":[";
    bool f2 = true;
    for (auto& s : kv.second) { if (!f2) cov += ","; f2 = false; cov += jstr(s); }
    cov += "],\"lines_hit\":" + std::to_string(linesHit[kv.first].size()) + ",\"lines_seen\":" + std::to_string(linesAll[kv.first].size()) + ",\"missed\":[";
    f2 = true;
    for (auto l : linesAll[kv.first]) if (!linesHit[kv.first].count(l)) { if (!f2) cov += ","; f2 = false; cov += std::to_string(l); }
    cov += "],\"hit\":[";
    f2 = true;
    for (auto l : linesHit[kv.first]) { if (!f2) cov += ","; f2 = false; cov += std::to_string(l); }
    cov += "]}";
  }
  cov += "}";
  auto U = [&](const char* n, std::atomic<u64>& v) { return std::string("\"") + n + "\":" + std::to_string(v.load()); };
  std::string s = "{\"type\":\"summary\"," + U("paths", sh->paths) + "," + U("infeasible", sh->pathsInfeasible) + "," + U("forks", sh->forks) + "," + U("instrs", sh->instrs) + "," + U("symbolic_branches", sh->symBranch) + "," +
                  U("implied", sh->implied) + "," + U("queries", sh->queries) + "," + U("sat", sh->sat) + "," + U("unsat", sh->unsat) + "," + U("unknown", sh->unknown) + "," + U("solver_ns", sh->solverNs) + "," + U("asserts", sh->asserts) + "," +
                  U("asserts_const", sh->assertsConst) + "," + U("asserts_query", sh->assertsQuery) + "," + U("picks", sh->picks) + "," + U("ite_loads", sh->itesLoads) + "," + U("known_hits", sh->knownHits) + "," + U("model_hits", sh->modelHits) + "," +
                  U("constraints", sh->constr) + "," + U("max_inputs", sh->maxVars) + "," + U("cache_hits", sh->cacheHits) + "," + U("domain", sh->domain) + "," + U("eval_unsat", sh->evalUnsat) + "," + U("queries_lia", sh->queriesLia) + "," + U("max_query_ns", sh->maxQueryNs) + ",\"incomplete\":" + std::to_string(sh->incomplete.load()) + ",\"fatal\":" + std::to_string(sh->fatal.load()) + ",\"unsupported\":" + std::to_string(sh->unsupported.load()) +
                  ",\"findings\":" + std::to_string(sh->findings.load()) + ",\"procs\":" + std::to_string(sh->procs.load()) + ",\"bytecode\":" + std::to_string(nb) + ",\"load_s\":" + std::to_string(tLoad) + ",\"wall_s\":" + std::to_string(now() - tStart) + ",\"coverage\":" + cov + "}";
  emit(s);
  return 0;
}
