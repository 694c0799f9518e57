// ---------------- driver ----------------
static std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static std::string jinputs(Engine& E, const Violation& v) {
  std::string s = "[";
  bool first = true;
  for (auto& in : v.inputs) {
    u64 x = in.e ? E.C.eval(in.e, *v.model) : in.c;
    char b[96];
    if (in.kind == 'I') { i64 t = in.e ? sx(x, in.e->w) : (i64)x; if (in.e && in.e->op == SYM && E.C.syms[in.e->c].ranged && E.C.syms[in.e->c].lo >= 0) t = (i64)x; snprintf(b, sizeof b, "%lld", (long long)t); s += (first ? "" : ",") + std::string("{\"k\":\"I\",\"n\":") + jstr(in.name) + ",\"v\":" + b + "}"; }
    else { snprintf(b, sizeof b, "%016llx", (unsigned long long)x); char b2[64]; snprintf(b2, 64, "%.17g", asD(x)); s += (first ? "" : ",") + std::string("{\"k\":\"D\",\"n\":") + jstr(in.name) + ",\"v\":\"" + b + "\",\"dec\":\"" + b2 + "\"}"; }
    first = false;
  }
  return s + "]";
}
static std::string jobs(Engine& E, const Violation& v) {
  std::string s = "[";
  bool first = true;
  for (auto& o : v.obs) {
    u64 x = o.e ? E.C.eval(o.e, *v.model) : o.c;
    char b[96];
    if (o.kind == 'I') snprintf(b, sizeof b, "%lld", (long long)sx(x, 32)); else snprintf(b, sizeof b, "\"%016llx\"", (unsigned long long)x);
    s += (first ? "" : ",") + std::string("{\"k\":\"") + o.kind + "\",\"n\":" + jstr(o.label) + ",\"v\":" + b + "}";
    first = false;
  }
  return s + "]";
}
static std::string jmap(const std::map<std::string, u64>& m) {
  std::string s = "{"; bool f = true;
  for (auto& p : m) { s += (f ? "" : ",") + jstr(p.first) + ":" + std::to_string(p.second); f = false; }
  return s + "}";
}

int main(int argc, char** argv) {
  std::string bc, entry, mode = "real", out;
  Engine E;
  unsigned z3timeout = 30000;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nxt = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nxt(); else if (a == "--mode") mode = nxt(); else if (a == "--out") out = nxt();
    else if (a == "--max-instrs") E.maxInstrs = std::stoull(nxt()); else if (a == "--timeout") E.timeout = std::stod(nxt());
    else if (a == "--z3-timeout") z3timeout = std::stoul(nxt()); else if (a == "--max-viol") E.maxViol = std::stoi(nxt());
    else if (a == "--max-witness") E.maxWitness = std::stoul(nxt()); else if (a == "--max-fork") E.maxForkVals = std::stoull(nxt());
    else if (a == "--param") { std::string p = nxt(); size_t e = p.find('='); E.params[p.substr(0, e)] = std::stoll(p.substr(e + 1)); }
    else bc = a;
  }
  E.C.fpMode = mode == "fp";
  E.S.reset(new Solver(E.C));
  E.S->timeoutMs = z3timeout;
  SMDiagnostic err;
  E.M = parseIRFile(bc, err, E.ctx);
  if (!E.M) { err.print("symx", errs()); return 3; }
  E.DL = &E.M->getDataLayout();
  E.initBuiltins();
  E.t0 = E.nowS();
  E.S->deadline = E.t0 + E.timeout + 10;
  // globals
  auto init = std::make_unique<State>();
  init->model = std::make_shared<Model>();
  E.st = init.get();
  std::string fatal;
  try {
    for (auto& F : *E.M) E.getFn(&F);
    for (auto& F : *E.M) E.gaddr[&F] = FNBASE + 16 * (std::find(E.fnByIdx.begin(), E.fnByIdx.end(), E.fns[&F]) - E.fnByIdx.begin());
    for (auto& G : E.M->globals()) {
      bool decl = G.isDeclaration();
      u64 sz = decl ? 64 : (u64)E.DL->getTypeAllocSize(G.getValueType());
      uint32_t id = E.newObj(sz ? sz : 1, decl ? EXTERN : GLOB, G.getName().str());
      E.gaddr[&G] = Engine::addrOf(id);
    }
    for (auto& G : E.M->globals()) if (G.hasInitializer()) { try { E.writeConst(E.gaddr[&G], G.getInitializer()); } catch (Unsupported& u) { if (getenv("SYMX_DEBUG")) fprintf(stderr, "global %s: %s\n", G.getName().str().c_str(), u.what()); } }
    for (auto& G : E.M->globals()) if (G.isConstant() && G.hasInitializer()) { uint32_t id; i64 off; E.split(E.gaddr[&G], id, off); E.objW(id)->kind = CONSTG; }
    // constructors
    if (auto* GC = E.M->getGlobalVariable("llvm.global_ctors")) {
      auto* CA = dyn_cast<ConstantArray>(GC->getInitializer());
      std::vector<std::pair<u64, Function*>> cs;
      if (CA) for (auto& op : CA->operands()) { auto* CS = cast<ConstantStruct>(op); if (auto* F = dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(CS->getOperand(0))->getZExtValue(), F}); }
      std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
      for (auto& c : cs) { E.pushFrame(E.getFn(c.second), {}, -1); E.runState(); }
    }
    E.encoded.clear();
    Function* F = E.M->getFunction(entry);
    if (!F) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
    init->instrs = 0; init->inputs.clear(); init->obs.clear(); init->nameCount.clear();
    E.pushFrame(E.getFn(F), {}, -1);
  } catch (Unsupported& u) { fatal = std::string("init: ") + u.what() + " in " + E.where(); }
  catch (PathEnd& p) { fatal = "init: path ended"; for (auto& v : E.viols) fatal += " " + v.label + ":" + v.detail + " @ " + v.where; }
  if (fatal.empty()) E.work.push_back(std::move(init)); else { E.unsup[fatal]++; E.nUnsup++; }
  auto dump = [&](bool partial) {
  std::string o = "{";
  auto kv = [&](const char* k, const std::string& v) { o += (o.size() > 1 ? "," : "") + jstr(k) + ":" + v; };
  auto num = [](double d) { char b[40]; snprintf(b, 40, "%.3f", d); return std::string(b); };
  kv("entry", jstr(entry)); kv("mode", jstr(mode));
  kv("paths", std::to_string(E.nPaths)); kv("pruned", std::to_string(E.nPruned)); kv("forks", std::to_string(E.nForks)); kv("instrs", std::to_string(E.nInstr));
  kv("checks", std::to_string(E.nChecks)); kv("folded", std::to_string(E.nFolded)); kv("by_solver", std::to_string(E.nBySolver)); kv("by_identity", std::to_string(E.nByIdentity));
  kv("inconclusive", std::to_string(E.nInconcl)); kv("unsupported", std::to_string(E.nUnsup)); kv("limit", std::to_string(E.nLimit)); kv("timed_out", (E.timedOut || partial) ? "true" : "false");
  kv("pending", std::to_string(E.work.size()));
  kv("queries", std::to_string(E.S->nQueries)); kv("cache_hits", std::to_string(E.S->nCacheHits)); kv("sat", std::to_string(E.S->nSat)); kv("unsat", std::to_string(E.S->nUnsat)); kv("unknown", std::to_string(E.S->nUnknown));
  kv("solver_s", num(E.S->solverTime)); kv("wall_s", num(E.nowS() - E.t0));
  kv("reach", jmap(E.reach)); kv("checks_by_label", jmap(E.checksByLabel)); kv("unsup", jmap(E.unsup)); kv("inconcl_by", jmap(E.inconclBy));
  std::string fl = "["; bool f = true;
  for (auto& n : E.encoded) { fl += (f ? "" : ",") + jstr(llvm::demangle(n)); f = false; }
  kv("functions", fl + "]");
  std::string vl = "["; f = true;
  for (auto& v : E.viols) { vl += (f ? "" : ",") + std::string("{\"label\":") + jstr(v.label) + ",\"detail\":" + jstr(v.detail) + ",\"where\":" + jstr(v.where) + ",\"inputs\":" + jinputs(E, v) + "}"; f = false; }
  kv("violations", vl + "]");
  std::string wl = "["; f = true;
  for (auto& v : E.witnesses) { wl += (f ? "" : ",") + std::string("{\"inputs\":") + jinputs(E, v) + ",\"obs\":" + jobs(E, v) + "}"; f = false; }
  kv("witnesses", wl + "]");
  o += "}\n";
  if (out.empty()) { if (!partial) fputs(o.c_str(), stdout); }
  else if (0) fputs(o.c_str(), stdout);
  else { std::string t = out + ".tmp"; FILE* fp = fopen(t.c_str(), "w"); fputs(o.c_str(), fp); fclose(fp); rename(t.c_str(), out.c_str()); }
  };
  u64 seenPaths = 0; size_t dumped = 0; double lastDump = E.nowS();
  while (!E.work.empty()) {
    if (E.outOfBudget()) break;
    auto s = std::move(E.work.back());
    E.work.pop_back();
    E.st = s.get();
    try {
      E.runState();
      E.nPaths++;
      if (E.st->approxBranch) { E.nInconcl++; E.inconclBy["path with undecided branch"]++; }
      // reservoir of path witnesses
      seenPaths++;
      size_t slot = E.witnesses.size() < E.maxWitness ? E.witnesses.size() : E.rng() % seenPaths;
      if (slot < E.maxWitness) {
        Violation w; w.inputs = E.st->inputs; w.obs = E.st->obs; w.model = E.C.fpMode ? E.st->model : E.niceModel(E.st->pc, nullptr, E.st->model);
        bool ok = true;
        for (Expr* c : E.st->pc) if (!(E.C.eval(c, *w.model) & 1) || E.C.uncertain) ok = false;
        if (ok) { if (slot < E.witnesses.size()) E.witnesses[slot] = w; else E.witnesses.push_back(w); }
      }
    } catch (PathEnd& p) {
      if (p.why == 1) E.nPruned++;
      else if (p.why == 2) E.nPaths++;
      else if (p.why == 3) E.nUnsup++;
    } catch (Unsupported& u) {
      E.nUnsup++;
      E.unsup[std::string(u.what()) + " in " + E.where()]++;
      if (getenv("SYMX_DEBUG")) fprintf(stderr, "unsupported: %s in %s\n", u.what(), E.where().c_str());
    } catch (z3::exception& ex) { E.nUnsup++; E.unsup[std::string("z3: ") + ex.msg()]++; }
    if (E.timedOut) break;
    if (E.viols.size() != dumped || E.nowS() - lastDump > 30) { dump(true); dumped = E.viols.size(); lastDump = E.nowS(); }
  }
  dump(false);
  fflush(stdout);
  _exit(0);
}
