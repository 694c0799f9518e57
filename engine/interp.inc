  // ---------------- interpreter (included inside Engine) ----------------
  const Val& V(int32_t i) { return i >= 0 ? st->stk[st->frames.back().base + i] : consts[-i - 1]; }
  void setV(int32_t i, const Val& v) { st->stk[st->frames.back().base + i] = v; }
  Expr* I2E(const Val& v, int w) { return v.e ? v.e : C.C(v.c, w); }
  Expr* D2E(const Val& v) { return v.e ? v.e : C.DCb(v.c); }
  static Val mk(u64 c) { Val v; v.c = c; return v; }
  u64 now_checked = 0;
  double nowS() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

  void takeEdge(State* s, const Edge& e) {
    Frame& fr = s->frames.back();
    size_t n = e.copies.size();
    if (n == 1) {
      auto& c = e.copies[0];
      s->stk[fr.base + c.first] = c.second >= 0 ? s->stk[fr.base + c.second] : consts[-c.second - 1];
    } else if (n > 1) {
      Val tmp[64]; std::vector<Val> big; Val* t = tmp;
      if (n > 64) { big.resize(n); t = big.data(); }
      for (size_t i = 0; i < n; i++) { auto& c = e.copies[i]; t[i] = c.second >= 0 ? s->stk[fr.base + c.second] : consts[-c.second - 1]; }
      for (size_t i = 0; i < n; i++) s->stk[fr.base + e.copies[i].first] = t[i];
    }
    fr.pc = e.target;
  }

  void pushFrame(DFunc* f, const std::vector<Val>& args, int32_t retDst, u64 varargs = 0) {
    decode(f);
    f->calls++;
    if (f->repo) encoded.insert(f->name);
    if (st->frames.size() > 3000) violation("nontermination", "unbounded recursion");
    Frame fr; fr.f = f; fr.pc = 0; fr.base = st->stk.size(); fr.retDst = retDst; fr.varargs = varargs;
    st->stk.resize(fr.base + f->nslots);
    for (size_t i = 0; i < f->argSlots.size() && i < args.size(); i++) st->stk[fr.base + f->argSlots[i]] = args[i];
    st->frames.push_back(std::move(fr));
  }
  void popFrame() {
    Frame& fr = st->frames.back();
    for (uint32_t a : fr.allocas) freeObj(a);
    st->stk.resize(fr.base);
    st->frames.pop_back();
  }
  // the call instruction the (now top) frame is stopped at
  DInst& curInst() { Frame& fr = st->frames.back(); return fr.f->code[fr.pc]; }
  void finishCall(const DInst& d) {  // advance past a completed call
    if (d.sub == 1) takeEdge(st, d.x->edges[0]); else st->frames.back().pc++;
  }
  void ret1(const DInst& d, const Val& v) { if (d.dst >= 0) setV(d.dst, v); finishCall(d); }

  // ---- exceptions ----
  std::string tiName(u64 ti) {
    if (!ti) return "";
    Val np = loadScalar(ti + 8, Elem{0, 8, 1, 64});
    return cstr(np.c);
  }
  std::string symName(u64 addr) {
    uint32_t id; i64 off;
    if (!split(addr, id, off)) return "";
    Obj* o = objR(id);
    return o ? o->name : "";
  }
  bool tiDerives(u64 ti, u64 base) {
    if (ti == base) return true;
    if (tiName(ti) == tiName(base)) return true;
    u64 vt = loadScalar(ti, Elem{0, 8, 1, 64}).c;
    std::string v = symName(vt);
    if (v.find("__si_class_type_info") != std::string::npos) return tiDerives(loadScalar(ti + 16, Elem{0, 8, 1, 64}).c, base);
    if (v.find("__vmi_class_type_info") != std::string::npos) {
      u64 n = loadScalar(ti + 20, Elem{0, 4, 0, 32}).c;
      for (u64 i = 0; i < n; i++) if (tiDerives(loadScalar(ti + 24 + 16 * i, Elem{0, 8, 1, 64}).c, base)) return true;
    }
    return false;
  }
  void unwind(u64 exc) {
    st->curExc = exc;
    u64 ti = st->exc.count(exc) ? st->exc[exc].first : 0;
    // the throwing frame itself is stopped at its call instruction
    for (;;) {
      if (st->frames.empty()) break;
      Frame& fr = st->frames.back();
      DInst& d = fr.f->code[fr.pc];
      if (d.op == I_CALL && d.sub == 1) {
        const Edge& e = d.x->edges[1];
        DInst& lp = fr.f->code[e.target];
        bool stop = false;
        if (lp.op == I_LANDINGPAD) {
          if (lp.x->cleanup) stop = true;
          for (auto& c : lp.x->clauses) if (c.first == 1 || c.second == 0 || tiDerives(ti, c.second)) stop = true;
        } else stop = true;
        if (stop) { takeEdge(st, e); return; }
      }
      std::string w = st->frames.size() == 1 ? where() : "";
      if (st->frames.size() == 1) violation("uncaught-exception", "uncaught exception of type " + llvm::demangle("_Z" + tiName(ti)));
      popFrame();
    }
    violation("uncaught-exception", "uncaught exception");
  }
  void doExit(Val code) {
    for (size_t i = st->frames.size(); i-- > 0;) {
      if (st->frames[i].marker) {
        while (st->frames.size() > i) popFrame();
        DInst& d = curInst();
        st->exitCode = code;
        ret1(d, mk(1));
        return;
      }
    }
    violation("exit", "the process exits");
  }

  // ---- execution ----
  Val binop(EOp op, const Val& a, const Val& b, int w) {
    if (!a.e && !b.e) { bool ok; u64 r = Ctx::foldBV(op, a.c, b.c, w, ok); if (!ok) violation("division", "integer division by zero or overflow"); return mk(r); }
    Expr* x = I2E(a, w); Expr* y = I2E(b, w);
    if (op == UDIV || op == SDIV || op == UREM || op == SREM) {
      Expr* z = simp(C.bin(EQ, y, C.C(0, w)));
      if (!(z->op == CONST && !z->c)) {
        std::shared_ptr<Model> m;
        Res r = feasible(z, &m);
        if (r == SAT) { auto sv = st->model; mergeModel(z, m); record("division", "integer division by zero", st->model, nullptr); st->model = sv; assume(C.notE(z)); }
      }
      if (isPow2(y) && (op == UDIV || op == UREM)) {
        int k = __builtin_ctzll(y->c);
        return fromE(op == UDIV ? C.bin(LSHR, x, C.C(k, w)) : C.bin(AND, x, C.C(y->c - 1, w)));
      }
      if ((op == SDIV || op == SREM) && x->slo >= 0 && y->slo > 0) return binop(op == SDIV ? UDIV : UREM, a, b, w);
    }
    return fromE(C.bin(op, x, y));
  }
  static bool isPow2(Expr* e) { return e->op == CONST && e->c && !(e->c & (e->c - 1)); }
  Expr* icmpE(int pred, Expr* a, Expr* b) {
    switch (pred) {
      case CmpInst::ICMP_EQ: return C.bin(EQ, a, b);
      case CmpInst::ICMP_NE: return C.notE(C.bin(EQ, a, b));
      case CmpInst::ICMP_UGT: return C.bin(ULT, b, a);
      case CmpInst::ICMP_UGE: return C.bin(ULE, b, a);
      case CmpInst::ICMP_ULT: return C.bin(ULT, a, b);
      case CmpInst::ICMP_ULE: return C.bin(ULE, a, b);
      case CmpInst::ICMP_SGT: return C.bin(SLT, b, a);
      case CmpInst::ICMP_SGE: return C.bin(SLE, b, a);
      case CmpInst::ICMP_SLT: return C.bin(SLT, a, b);
      case CmpInst::ICMP_SLE: return C.bin(SLE, a, b);
    }
    throw Unsupported("icmp predicate");
  }
  Expr* fcmpE(int pred, Expr* a, Expr* b) {
    auto uno = [&]() { return C.orE(C.disnan(a), C.disnan(b)); };
    switch (pred) {
      case CmpInst::FCMP_FALSE: return C.F();
      case CmpInst::FCMP_OEQ: return C.dcmp(DEQ, a, b);
      case CmpInst::FCMP_OGT: return C.dcmp(DLT, b, a);
      case CmpInst::FCMP_OGE: return C.dcmp(DLE, b, a);
      case CmpInst::FCMP_OLT: return C.dcmp(DLT, a, b);
      case CmpInst::FCMP_OLE: return C.dcmp(DLE, a, b);
      case CmpInst::FCMP_ONE: return C.andE(C.notE(C.dcmp(DEQ, a, b)), C.notE(uno()));
      case CmpInst::FCMP_ORD: return C.notE(uno());
      case CmpInst::FCMP_UNO: return uno();
      case CmpInst::FCMP_UEQ: return C.orE(C.dcmp(DEQ, a, b), uno());
      case CmpInst::FCMP_UGT: return C.notE(C.dcmp(DLE, a, b));
      case CmpInst::FCMP_UGE: return C.notE(C.dcmp(DLT, a, b));
      case CmpInst::FCMP_ULT: return C.notE(C.dcmp(DLE, b, a));
      case CmpInst::FCMP_ULE: return C.notE(C.dcmp(DLT, b, a));
      case CmpInst::FCMP_UNE: return C.notE(C.dcmp(DEQ, a, b));
      default: return C.T();
    }
  }
  Val fbin(EOp op, const Val& a, const Val& b, int k) {
    if (!a.e && !b.e) {
      if (k == 2) return mk(bitsD(Ctx::foldD(op, asD(a.c), asD(b.c))));
      if (k == 3) { float x, y; uint32_t t = a.c; memcpy(&x, &t, 4); t = b.c; memcpy(&y, &t, 4);
        float r = op == DADD ? x + y : op == DSUB ? x - y : op == DMUL ? x * y : x / y; memcpy(&t, &r, 4); return mk(t); }
      throw Unsupported("long double arithmetic");
    }
    if (k != 2) throw Unsupported("symbolic float arithmetic");
    Expr* x = D2E(a); Expr* y = D2E(b);
    if (!C.fpMode && op == DDIV && !(y->op == DCONST && asD(y->c) != 0)) {
      // division by a value that may be zero: split, IEEE result on the zero side
      y = y->op == DCONST ? y : simp(y);
      bool isz;
      if (y->op == DCONST) isz = asD(y->c) == 0;
      else isz = branchVal(C.dcmp(DEQ, y, C.DC(0)));
      if (isz) {
        if (x->op == DCONST) return mk(bitsD(asD(x->c) / 0.0));
        if (branchVal(C.dcmp(DEQ, x, C.DC(0)))) return mk(bitsD(NAN));
        return mk(bitsD(branchVal(C.dcmp(DLT, x, C.DC(0))) ? -INFINITY : INFINITY));
      }
    }
    if (!C.fpMode) for (int i = 0; i < 2; i++) {
      Expr* p = i ? y : x; Expr* q = i ? x : y;
      if (p->op == DCONST && !std::isfinite(asD(p->c))) {
        double pv = asD(p->c);
        if (std::isnan(pv)) return mk(bitsD(NAN));
        if (op == DADD) return mk(p->c);
        if (op == DSUB) return mk(bitsD(i ? -pv : pv));
        if (op == DDIV && i) return mk(bitsD(0.0));
        if (branchVal(C.dcmp(DEQ, q, C.DC(0)))) return mk(bitsD(op == DMUL ? NAN : pv));
        return mk(bitsD(branchVal(C.dcmp(DLT, q, C.DC(0))) ? -pv : pv));
      }
    }
    return fromE(C.dbin(op, x, y));
  }
  // decide a condition, forking a sibling that re-executes the current instruction
  bool branchVal(Expr* c) {
    return branch(c, [](State*) {});
  }
  u64 addrV(const Val& v, u64 n) {
    if (!v.e) return v.c;
    Expr* e = simp(v.e);
    if (e->op == CONST) return e->c;
    // large ranges: first look for an out-of-bounds value
    u64 a0 = C.eval(e, *st->model);
    uint32_t id; i64 off;
    if (split(a0, id, off) && objR(id)) {
      Obj* o = objR(id);
      u64 base = addrOf(id);
      bool inOK = off >= 0 && (u64)off + n <= o->size;
      if (e->uhi - e->ulo > 4096 && inOK) {
        Expr* in = C.bin(ULE, C.bin(SUB, e, C.C(base, 64)), C.C(o->size - n, 64));
        std::shared_ptr<Model> m;
        Res r = feasible(C.notE(in), &m);
        if (r == SAT) {
          // possibly a legitimate other object
          Model full = *st->model;
          for (size_t i = 0; i < m->v.size(); i++) if (m->has[i]) full.set(i, m->v[i]);
          u64 a1 = C.eval(e, full); uint32_t id1; i64 off1;
          bool ok = split(a1, id1, off1) && objR(id1) && off1 >= 0 && (u64)off1 + n <= objR(id1)->size;
          if (!ok) { record("memory", "out-of-bounds access through a symbolic index", merged(m), nullptr); assume(in); }
        }
      }
    }
    return concretize(e);
  }

  // a byte of a constant table at a symbolic position (digit tables and the like), without forking
  bool tableLoad(Expr* e0, Val& r) {
    Expr* e = simp(e0);
    if (e->op == CONST) return false;
    uint32_t id; i64 off;
    if (!split(C.eval(e, *st->model), id, off) || !objR(id)) return false;
    Obj* o = objR(id);
    if (o->kind != CONSTG && o->kind != STACK) return false;
    if (o->size < 64 || o->size > 512 || off < 0 || (u64)off >= o->size) return false;
    for (auto* x : o->sym) if (x) return false;
    for (auto u : o->undef) if (u) return false;
    Expr* rel = C.bin(SUB, e, C.C(addrOf(id), 64));
    if (feasible(C.notE(C.bin(ULE, rel, C.C(o->size - 1, 64))), nullptr) != UNSAT) return false;
    std::function<Expr*(u64, u64)> tree = [&](u64 a, u64 b) -> Expr* {
      bool same = true;
      for (u64 i = a + 1; i < b; i++) if (o->data[i] != o->data[a]) { same = false; break; }
      if (same) return C.C(o->data[a], 8);
      u64 m = (a + b) / 2;
      return C.ite(C.bin(ULT, rel, C.C(m, 64)), tree(a, m), tree(m, b));
    };
    r = fromE(tree(0, o->size));
    return true;
  }
  void runState() {
    u64 tick = 0;
    for (;;) {
      if ((++tick & 0x3ff) == 0 && outOfBudget()) throw PathEnd{4};
      nInstr++;
      if (++st->instrs > maxInstrs) { nLimit++; violation("nontermination", "no result after " + std::to_string(maxInstrs) + " instructions"); }
      Frame& fr = st->frames.back();
      step(fr, fr.f->code[fr.pc]);
      if (st->frames.empty()) return;
    }
  }

  void step(Frame& fr, DInst& d) {
    switch (d.op) {
      case I_BIN: setV(d.dst, binop((EOp)d.sub, V(d.a), V(d.b), d.w)); st->frames.back().pc++; return;
      case I_ICMP: {
        const Val &a = V(d.a), &b = V(d.b);
        Val r;
        if (!a.e && !b.e) {
          i64 x = sx(a.c, d.w), y = sx(b.c, d.w); u64 p = a.c & maskw(d.w), q = b.c & maskw(d.w);
          switch (d.sub) {
            case CmpInst::ICMP_EQ: r.c = p == q; break; case CmpInst::ICMP_NE: r.c = p != q; break;
            case CmpInst::ICMP_UGT: r.c = p > q; break; case CmpInst::ICMP_UGE: r.c = p >= q; break;
            case CmpInst::ICMP_ULT: r.c = p < q; break; case CmpInst::ICMP_ULE: r.c = p <= q; break;
            case CmpInst::ICMP_SGT: r.c = x > y; break; case CmpInst::ICMP_SGE: r.c = x >= y; break;
            case CmpInst::ICMP_SLT: r.c = x < y; break; case CmpInst::ICMP_SLE: r.c = x <= y; break;
          }
        } else r = fromE(icmpE(d.sub, I2E(a, d.w), I2E(b, d.w)));
        setV(d.dst, r); fr.pc++; return; }
      case I_FCMP: {
        const Val &a = V(d.a), &b = V(d.b);
        Val r;
        if (!a.e && !b.e) {
          double x, y;
          if (d.k == 3) { float f; uint32_t t = a.c; memcpy(&f, &t, 4); x = f; t = b.c; memcpy(&f, &t, 4); y = f; }
          else { x = asD(a.c); y = asD(b.c); }
          bool u = std::isnan(x) || std::isnan(y);
          switch (d.sub) {
            case CmpInst::FCMP_FALSE: r.c = 0; break; case CmpInst::FCMP_TRUE: r.c = 1; break;
            case CmpInst::FCMP_OEQ: r.c = x == y; break; case CmpInst::FCMP_OGT: r.c = x > y; break; case CmpInst::FCMP_OGE: r.c = x >= y; break;
            case CmpInst::FCMP_OLT: r.c = x < y; break; case CmpInst::FCMP_OLE: r.c = x <= y; break; case CmpInst::FCMP_ONE: r.c = !u && x != y; break;
            case CmpInst::FCMP_ORD: r.c = !u; break; case CmpInst::FCMP_UNO: r.c = u; break; case CmpInst::FCMP_UEQ: r.c = u || x == y; break;
            case CmpInst::FCMP_UGT: r.c = u || x > y; break; case CmpInst::FCMP_UGE: r.c = u || x >= y; break; case CmpInst::FCMP_ULT: r.c = u || x < y; break;
            case CmpInst::FCMP_ULE: r.c = u || x <= y; break; case CmpInst::FCMP_UNE: r.c = x != y || u; break;
          }
        } else { if (d.k != 2) throw Unsupported("symbolic float compare"); r = fromE(fcmpE(d.sub, D2E(a), D2E(b))); }
        setV(d.dst, r); fr.pc++; return; }
      case I_FBIN: { Val r = fbin((EOp)d.sub, V(d.a), V(d.b), d.k); setV(d.dst, r); st->frames.back().pc++; return; }
      case I_FNEG: {
        const Val& a = V(d.a); Val r;
        if (!a.e) r.c = d.k == 3 ? a.c ^ 0x80000000u : a.c ^ (1ull << 63);
        else r = fromE(C.dneg(a.e));
        setV(d.dst, r); fr.pc++; return; }
      case I_LOAD: {
        if (d.x->elems.size() == 1 && d.x->elems[0].bytes == 1 && d.x->elems[0].kind == 0) {
          Val av = V(d.a);
          if (av.e) { Val r; if (tableLoad(av.e, r)) { setV(d.dst, r); st->frames.back().pc++; return; } }
        }
        u64 n = d.x->elems.empty() ? 0 : d.x->elems.back().off + d.x->elems.back().bytes;
        u64 a = addrV(V(d.a), n);
        for (size_t i = 0; i < d.x->elems.size(); i++) {
          if (d.x->elems[i].kind == 4) throw Unsupported("long double load");
          Val v = loadScalar(a + d.x->elems[i].off, d.x->elems[i]);
          if (v.e) v = fromE(simp(v.e));
          setV(d.dst + i, v);
        }
        st->frames.back().pc++; return; }
      case I_STORE: {
        u64 n = d.x->elems.empty() ? 0 : d.x->elems.back().off + d.x->elems.back().bytes;
        u64 a = addrV(V(d.a), n);
        for (size_t i = 0; i < d.x->elems.size(); i++) {
          if (d.x->elems[i].kind == 4) throw Unsupported("long double store");
          storeScalar(a + d.x->elems[i].off, d.x->elems[i], V(d.x->args[i]));
        }
        st->frames.back().pc++; return; }
      case I_ALLOCA: {
        u64 n = conc(V(d.a));
        uint32_t id = newObj(d.imm * n, STACK, "stack");
        st->frames.back().allocas.push_back(id);
        setV(d.dst, mk(addrOf(id))); st->frames.back().pc++; return; }
      case I_GEP: {
        const Val& b = V(d.a);
        u64 off = d.imm; Expr* e = b.e;
        for (auto& g : d.x->gep) {
          const Val& i = V(g.v);
          if (!i.e) off += (u64)sx(i.c, g.w) * g.scale;
          else {
            Expr* t = C.bin(MUL, C.sext(i.e, 64), C.C(g.scale, 64));
            e = e ? C.bin(ADD, e, t) : t;
          }
        }
        Val r;
        if (!e) r.c = b.c + off;
        else r = fromE(C.bin(ADD, e, C.C(off + (b.e ? 0 : b.c), 64)));
        setV(d.dst, r); fr.pc++; return; }
      case I_CAST: { Val r = cast_(d, V(d.a)); setV(d.dst, r); st->frames.back().pc++; return; }
      case I_SELECT: {
        Val c = V(d.a);
        if (c.e) { Expr* s = simp(c.e); if (s->op == CONST) { c.e = nullptr; c.c = s->c; } else c.e = s; }
        size_t n = d.c;
        if (!c.e) { std::vector<Val> t; for (size_t i = 0; i < n; i++) t.push_back(V(d.x->args[(c.c & 1) ? i : n + i])); for (size_t i = 0; i < n; i++) setV(d.dst + i, t[i]); }
        else {
          for (size_t i = 0; i < n; i++) {
            auto& el = d.x->elems[i];
            if (el.kind >= 3) throw Unsupported("select on float");
            if (el.kind == 1) {  // pointers: fork instead of building symbolic addresses
              bool t = branchVal(c.e);
              c.e = nullptr; c.c = t; 
              std::vector<Val> tv; for (size_t j = 0; j < n; j++) tv.push_back(V(d.x->args[t ? j : n + j])); for (size_t j = 0; j < n; j++) setV(d.dst + j, tv[j]);
              st->frames.back().pc++; return;
            }
          }
          if (!C.fpMode) for (size_t i = 0; i < n; i++) if (d.x->elems[i].kind == 2) {
            const Val &t = V(d.x->args[i]), &f = V(d.x->args[n + i]);
            if ((!t.e && !std::isfinite(asD(t.c))) || (!f.e && !std::isfinite(asD(f.c)))) {
              bool tk = branchVal(c.e);
              std::vector<Val> tv; for (size_t j = 0; j < n; j++) tv.push_back(V(d.x->args[tk ? j : n + j])); for (size_t j = 0; j < n; j++) setV(d.dst + j, tv[j]);
              st->frames.back().pc++; return;
            }
          }
          std::vector<Val> t;
          for (size_t i = 0; i < n; i++) {
            auto& el = d.x->elems[i];
            const Val &a = V(d.x->args[i]), &b = V(d.x->args[n + i]);
            t.push_back(fromE(el.kind == 2 ? C.ite(c.e, D2E(a), D2E(b)) : C.ite(c.e, I2E(a, el.bits), I2E(b, el.bits))));
          }
          for (size_t i = 0; i < n; i++) setV(d.dst + i, t[i]);
        }
        st->frames.back().pc++; return; }
      case I_JMP: takeEdge(st, d.x->edges[0]); return;
      case I_BR: {
        const Val c = V(d.a);
        bool t;
        if (!c.e) t = c.c & 1;
        else { DX* x = d.x; t = branch(c.e, [this, x](State* o) { takeEdge(o, x->edges[1]); }); }
        takeEdge(st, d.x->edges[t ? 0 : 1]); return; }
      case I_SWITCH: {
        Val v = V(d.a);
        if (v.e) { Expr* s = simp(v.e); if (s->op == CONST) { v.e = nullptr; v.c = s->c; } else v.e = s; }
        if (!v.e) {
          for (size_t i = 0; i < d.x->cases.size(); i++) if (d.x->cases[i] == (v.c & maskw(d.w))) { takeEdge(st, d.x->edges[i + 1]); return; }
          takeEdge(st, d.x->edges[0]); return;
        }
        // symbolic: group the cases by destination
        std::map<uint32_t, std::pair<Expr*, size_t>> grp;
        for (size_t i = 0; i < d.x->cases.size(); i++) {
          const Edge& ed = d.x->edges[i + 1];
          Expr* c = C.bin(EQ, v.e, C.C(d.x->cases[i], d.w));
          if (c->op == CONST && !c->c) continue;
          if (ed.copies.empty() && grp.count(ed.target)) grp[ed.target].first = C.orE(grp[ed.target].first, c);
          else if (ed.copies.empty()) grp[ed.target] = {c, i + 1};
          else grp[0x80000000u + i] = {c, i + 1};
        }
        for (auto& g : grp) {
          Expr* c = g.second.first; size_t ei = g.second.second;
          Expr* s = simp(c);
          if (s->op == CONST && !s->c) continue;
          DX* x = d.x; size_t e2 = ei;
          // c true -> sibling takes the case edge; false -> continue
          bool notc = branch(C.notE(c), [this, x, e2](State* o) { takeEdge(o, x->edges[e2]); });
          if (!notc) { takeEdge(st, d.x->edges[ei]); return; }
        }
        takeEdge(st, d.x->edges[0]); return; }
      case I_RET: {
        std::vector<Val> rv;
        for (int32_t a : d.x->args) rv.push_back(V(a));
        bool marker = fr.marker;
        int32_t dst = fr.retDst;
        popFrame();
        if (st->frames.empty()) { retVals = rv; return; }
        DInst& cd = curInst();
        if (marker) { ret1(cd, mk(0)); return; }
        if (dst >= 0) for (size_t i = 0; i < rv.size(); i++) setV(dst + i, rv[i]);
        finishCall(cd); return; }
      case I_CALL: doCall(fr, d); return;
      case I_UNREACH: violation("unreachable", "undefined behaviour: unreachable code executed"); return;
      case I_EXTRACTV: {
        std::vector<Val> t; for (int32_t a : d.x->args) t.push_back(V(a));
        for (size_t i = 0; i < t.size(); i++) setV(d.dst + i, t[i]);
        fr.pc++; return; }
      case I_LANDINGPAD: {
        u64 ti = st->exc.count(st->curExc) ? st->exc[st->curExc].first : 0;
        u64 sel = 0;
        for (auto& c : d.x->clauses) {
          if (c.first == 1) { violation("terminate", "exception violates an exception specification"); }
          if (c.second == 0) { sel = 1; break; }
          if (tiDerives(ti, c.second)) { sel = c.second >> 32; break; }
        }
        setV(d.dst, mk(st->curExc)); setV(d.dst + 1, mk(sel)); fr.pc++; return; }
      case I_RESUME: { u64 e = V(d.x->args[0]).c; if (st->frames.size() == 1) violation("uncaught-exception", "uncaught exception"); popFrame(); unwind(e); return; }
      case I_NOP: fr.pc++; return;
      case I_ATOMICRMW: {
        u64 a = addrV(V(d.a), d.x->elems[0].bytes);
        Val old = loadScalar(a, d.x->elems[0]); Val nv;
        switch (d.sub) {
          case AtomicRMWInst::Add: nv = binop(ADD, old, V(d.b), d.w); break;
          case AtomicRMWInst::Sub: nv = binop(SUB, old, V(d.b), d.w); break;
          case AtomicRMWInst::Xchg: nv = V(d.b); break;
          default: throw Unsupported("atomicrmw");
        }
        storeScalar(a, d.x->elems[0], nv); setV(d.dst, old); st->frames.back().pc++; return; }
      case I_CMPXCHG: {
        u64 a = addrV(V(d.a), d.x->elems[0].bytes);
        Val old = loadScalar(a, d.x->elems[0]);
        if (old.e || V(d.b).e) throw Unsupported("symbolic cmpxchg");
        bool eq = old.c == V(d.b).c;
        if (eq) storeScalar(a, d.x->elems[0], V(d.c));
        setV(d.dst, old); setV(d.dst + 1, mk(eq)); st->frames.back().pc++; return; }
      default: throw Unsupported("instruction");
    }
  }

  // a number too large for an int becomes the smallest int, as the processor does it
  Expr* fit32(Expr* s, int w) {
    Expr* in = C.andE(C.cmpE(SLE, C.C((u64)(i64)INT32_MIN, s->w), s), C.cmpE(SLE, s, C.C(INT32_MAX, s->w)));
    return C.ite(in, C.extract(s, 0, w), C.C((1ull << 31) & maskw(w), w));
  }
  Val cast_(DInst& d, const Val& a) {
    switch (d.sub) {
      case Instruction::Trunc: return a.e ? fromE(C.extract(a.e, 0, d.w2)) : mk(a.c & maskw(d.w2));
      case Instruction::ZExt: return a.e ? fromE(C.zext(a.e, d.w2)) : mk(a.c & maskw(d.w));
      case Instruction::SExt: return a.e ? fromE(C.sext(a.e, d.w2)) : mk((u64)sx(a.c, d.w) & maskw(d.w2));
      case Instruction::PtrToInt: case Instruction::IntToPtr:
        if (d.w2 < 64) return a.e ? fromE(C.extract(a.e, 0, d.w2)) : mk(a.c & maskw(d.w2));
        return a;
      case Instruction::BitCast: case Instruction::AddrSpaceCast:
        if (a.e && d.k == 2 && d.k2 == 0) return fromE(C.d2bits(a.e));
        if (a.e && d.k == 0 && d.k2 == 2) return fromE(C.bits2d(a.e));
        return a;
      case Instruction::SIToFP: case Instruction::UIToFP: {
        bool sg = d.sub == Instruction::SIToFP;
        if (a.e && d.k2 == 3) { float f = pin(sg ? C.dfroms(a.e) : C.dfromu(a.e), "single precision"); uint32_t t; memcpy(&t, &f, 4); return mk(t); }
        if (a.e) { if (d.k2 != 2) throw Unsupported("symbolic int to float"); return fromE(sg ? C.dfroms(a.e) : C.dfromu(a.e)); }
        double v = sg ? (double)sx(a.c, d.w) : (double)(a.c & maskw(d.w));
        if (d.k2 == 3) { float f = sg ? (float)sx(a.c, d.w) : (float)(a.c & maskw(d.w)); uint32_t t; memcpy(&t, &f, 4); return mk(t); }
        if (d.k2 != 2) throw Unsupported("long double");
        return mk(bitsD(v)); }
      case Instruction::FPToSI: case Instruction::FPToUI: {
        if (a.e) {
          if (d.k != 2) throw Unsupported("symbolic float to int");
          Expr* e = a.e;
          if (e->op == DFLOOR && (e->a->op == DFROMS || e->a->op == DFROMU)) e = e->a;
          if (!C.fpMode && (e->op == DFROMS || e->op == DFROMU)) {
            Expr* s = e->a;
            return fromE(s->w == d.w2 ? s : s->w > d.w2 ? fit32(s, d.w2) : e->op == DFROMS ? C.sext(s, d.w2) : C.zext(s, d.w2));
          }
          if (d.w2 <= 32) return fromE(fit32(C.raw(D2S, 64, 0, e), d.w2));
          return fromE(C.raw(D2S, d.w2, 0, e));
        }
        double v; if (d.k == 3) { float f; uint32_t t = a.c; memcpy(&f, &t, 4); v = f; } else v = asD(a.c);
        if (d.sub == Instruction::FPToUI) return mk((v >= 0 && v < 18446744073709551616.0 ? (u64)v : 0) & maskw(d.w2));
        if (d.w2 <= 32 && !(v > -2147483649.0 && v < 2147483648.0)) return mk((1ull << 31) & maskw(d.w2));
        return mk((std::fabs(v) < 9.2e18 ? (u64)(i64)v : (1ull << 63)) & maskw(d.w2)); }
      case Instruction::FPTrunc: { if (d.k2 != 3) throw Unsupported("fptrunc"); float f = a.e ? pin(a.e, "single precision") : asD(a.c); uint32_t t; memcpy(&t, &f, 4); return mk(t); }
      case Instruction::FPExt: { if (a.e || d.k2 != 2) throw Unsupported("fpext"); float f; uint32_t t = a.c; memcpy(&f, &t, 4); return mk(bitsD((double)f)); }
    }
    throw Unsupported("cast");
  }

  std::vector<Val> retVals;

  void doCall(Frame& fr, DInst& d) {
    DX* x = d.x;
    DFunc* f = nullptr;
    if (x->callee) {
      if (x->builtin == -1) {
        auto it = builtins.find(x->callee->getName().str());
        std::string nm = x->callee->getName().str();
        if (it == builtins.end() && nm.substr(0, 5) == "llvm.") {
          // strip type suffixes
          std::string t = nm;
          while (it == builtins.end()) { size_t p = t.rfind('.'); if (p == std::string::npos || p <= 4) break; t = t.substr(0, p); it = builtins.find(t); }
        }
        x->builtin = it == builtins.end() ? -2 : it->second;
      }
      if (x->builtin >= 0) {
        std::vector<Val> a;
        for (int32_t i : x->args) { Val v = V(i); if (v.e) v = fromE(simp(v.e)); a.push_back(v); }
        bfns[x->builtin](a, d);
        return;
      }
      f = getFn(x->callee);
      if (f->strHook == 0) f->strHook = f->name == "_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE7compareERKS4_" ? 1 : f->name == "_ZSteqIcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EESA_" ? 2 :
        f->name == "_ZNSt7__cxx119to_stringEi" || f->name == "_ZNSt7__cxx119to_stringEl" || f->name == "_ZNSt7__cxx119to_stringEx" ? 3 : -1;
      if (f->strHook == 3 && x->args.size() == 2) {  // text of a symbolic integer: kept as a number
        Val v = V(x->args[1]); if (v.e) v = fromE(simp(v.e));
        if (v.e && v.e->op != DCONST) {
          u64 o = conc(V(x->args[0])), k = o + 16; Expr* e = v.e->w < 64 ? C.sext(v.e, 64) : v.e;
          storeScalar(o, Elem{0, 8, 1, 64}, mk(k)); storeScalar(o + 8, Elem{0, 8, 0, 64}, mk(11));
          storeScalar(k, Elem{0, 1, 0, 8}, mk(1)); storeScalar(k + 1, Elem{0, 1, 0, 8}, mk(0x23)); storeScalar(k + 2, Elem{0, 1, 0, 8}, mk(0x20));
          storeScalar(k + 3, Elem{0, 8, 0, 64}, fromE(e)); storeScalar(k + 11, Elem{0, 1, 0, 8}, mk(0));
          finishCall(d); return;
        }
      }
      if (f->strHook == 1 || f->strHook == 2) {
        Val a = V(x->args[0]), b = V(x->args[1]);
        if (!a.e && !b.e) { Expr* r = markerCompare(a.c, b.c); if (r) { if (f->strHook == 2) r = C.bin(EQ, r, C.C(0, 32)); ret1(d, fromE(r)); return; } }
      }
    } else {
      u64 p = conc(V(d.a));
      if (p < FNBASE || (p - FNBASE) % 16 || (p - FNBASE) / 16 >= fnByIdx.size()) memErr("call through an invalid function pointer");
      f = fnByIdx[(p - FNBASE) / 16];
      auto it = builtins.find(f->name);
      if (it != builtins.end()) {
        std::vector<Val> a;
        for (int32_t i : x->args) a.push_back(V(i));
        bfns[it->second](a, d);
        return;
      }
    }
    if (f->F->isDeclaration()) throw Unsupported("external function " + llvm::demangle(f->name));
    std::vector<Val> a;
    std::vector<uint32_t> cp;
    for (size_t i = 0; i < x->args.size(); i++) {
      Val v = V(x->args[i]);
      if (x->byval[i]) {
        uint32_t id = newObj(x->byvalSize[i], STACK, "byval");
        cp.push_back(id);
        copyMem(addrOf(id), v.c, x->byvalSize[i]);
        v = mk(addrOf(id));
      }
      a.push_back(v);
    }
    u64 va = 0;
    decode(f);
    if (f->F->isVarArg()) {
      size_t n = f->argSlots.size();
      uint32_t id = newObj((a.size() > n ? a.size() - n : 0) * 8 + 8, STACK, "varargs");
      cp.push_back(id);
      va = addrOf(id);
      for (size_t i = n; i < a.size(); i++) storeScalar(va + 8 * (i - n), Elem{0, 8, (uint8_t)(x->argK[i] == 2 ? 2 : 0), 64}, (a[i].e && a[i].e->w && a[i].e->w < 64) ? fromE(C.sext(a[i].e, 64)) : a[i]);
    }
    pushFrame(f, a, d.dst, va);
    for (uint32_t id : cp) st->frames.back().allocas.push_back(id);
  }
  DFunc* byName(const char* n) {
    Function* F = M->getFunction(n);
    if (!F || F->isDeclaration()) throw Unsupported(std::string("missing runtime function ") + n);
    return getFn(F);
  }
  void callNoReturn(const char* n) { pushFrame(byName(n), {}, -1); }

  u64 heapAlloc(u64 n, uint8_t kind) {
    uint32_t id = newObj(n, HEAP, "heap");
    objW(id)->alloc = kind;
    return addrOf(id);
  }
  void doFree(u64 p, uint8_t kind) {
    if (!p) return;
    uint32_t id; i64 off;
    if (!split(p, id, off)) memErr("free of a wild pointer");
    Obj* o = objR(id);
    if (!o) memErr("double free");
    if (o->kind != HEAP || off != 0) memErr("free of a pointer that was not allocated");
    freeObj(id);
  }
  std::string freshName(const std::string& n) {
    int k = st->nameCount[n]++;
    return k ? n + "#" + std::to_string(k) : n;
  }
  Expr* newInt(const std::string& nm, int w, i64 lo, i64 hi) {
    std::string key = nm + "|" + std::to_string(w) + "|" + std::to_string(lo) + "|" + std::to_string(hi);
    int id = C.getSym(key, false, w);
    auto& s = C.syms[id];
    s.ranged = true; s.lo = lo; s.hi = hi;
    return C.sym(id);
  }
  Val symInput(const std::string& base, int w, i64 lo, i64 hi) {
    std::string nm = freshName(base);
    if (lo > hi) throw PathEnd{1};
    Val v;
    if (lo == hi) v.c = (u64)lo & maskw(w);
    else v.e = newInt(nm, w, lo, hi);
    InputRec r; r.kind = 'I'; r.name = nm; r.e = v.e; r.c = v.e ? 0 : (u64)lo;
    st->inputs.push_back(r);
    return v;
  }
  std::vector<std::function<void(std::vector<Val>&, DInst&)>> bfns;
  void B(const char* n, std::function<void(std::vector<Val>&, DInst&)> f) { builtins[n] = bfns.size(); bfns.push_back(f); }

  // memory comparison as an expression; bytes belonging to a stored double representation are compared as doubles
  Expr* memcmpE(u64 a, u64 b, u64 n) {
    struct It { Expr* c; Expr* lt; };
    std::vector<It> its;
    std::vector<Expr*> x, y;
    for (u64 i = 0; i < n; i++) { x.push_back(byteE(a + i)); y.push_back(byteE(b + i)); }
    auto dgroup = [&](std::vector<Expr*>& v, u64 i) -> Expr* {
      if (i + 8 > n) return nullptr;
      Expr* e = nullptr;
      for (int k = 7; k >= 0; k--) e = e ? C.concat(e, v[i + k]) : v[i + 7];
      if (e->op == CONST) return nullptr;
      return e->op == D2BITS ? e->a : nullptr;
    };
    auto cgroup = [&](std::vector<Expr*>& v, u64 i) -> Expr* {
      u64 c = 0;
      for (int k = 0; k < 8; k++) { if (v[i + k]->op != CONST) return nullptr; c |= v[i + k]->c << (8 * k); }
      return C.DCb(c);
    };
    for (u64 i = 0; i < n;) {
      if (x[i] == y[i]) { i++; continue; }
      if (x[i]->op == CONST && y[i]->op == CONST) { its.push_back({C.F(), C.C(x[i]->c < y[i]->c, 1)}); break; }
      Expr *p = dgroup(x, i), *q = dgroup(y, i);
      if (p || q) {
        if (!p) p = i + 8 <= n ? cgroup(x, i) : nullptr;
        if (!q) q = i + 8 <= n ? cgroup(y, i) : nullptr;
        if (!p || !q) throw Unsupported("comparison of partially symbolic text");
        its.push_back({C.dcmp(DEQ, p, q), C.dcmp(DLT, p, q)});
        i += 8; continue;
      }
      its.push_back({C.bin(EQ, x[i], y[i]), C.bin(ULT, x[i], y[i])});
      i++;
    }
    if (its.empty()) return C.C(0, 32);
    Expr* alleq = C.T();
    Expr* less = C.F();
    for (size_t i = its.size(); i-- > 0;) {
      alleq = C.andE(its[i].c, alleq);
      less = C.ite(its[i].c, less, its[i].lt);
    }
    return C.ite(alleq, C.C(0, 32), C.ite(less, C.C((u64)-1, 32), C.C(1, 32)));
  }
  // a string that is exactly one printed symbolic number against a completely known text
  Expr* markerCompare(u64 a, u64 b) {
    for (int sw = 0; sw < 2; sw++, std::swap(a, b)) {
      Val n = loadScalar(a + 8, Elem{0, 8, 0, 64}), m = loadScalar(b + 8, Elem{0, 8, 0, 64}), p = loadScalar(a, Elem{0, 8, 1, 64}), q = loadScalar(b, Elem{0, 8, 1, 64});
      if (n.e || m.e || p.e || q.e || n.c != 11 || m.c == 0 || m.c > 60) continue;
      Val t = loadScalar(p.c, Elem{0, 1, 0, 8});
      if (t.e || t.c != 1) continue;
      Val kind = loadScalar(p.c + 1, Elem{0, 1, 0, 8}), prec = loadScalar(p.c + 2, Elem{0, 1, 0, 8});
      if (kind.e || prec.e) continue;
      bool in = kind.c == 0x23;
      Val v = loadScalar(p.c + 3, Elem{0, 8, in ? 0u : 2u, 64});
      if (!v.e) continue;
      std::string text;
      for (u64 i = 0; i < m.c; i++) { Val c = loadScalar(q.c + i, Elem{0, 1, 0, 8}); if (c.e || c.c == 1) return nullptr; text += (char)c.c; }
      char* end;
      if (in) {
        long long n = strtoll(text.c_str(), &end, 10);
        if (*end || text != std::to_string(n)) return C.C((u64)-1, 32);
        return C.ite(C.bin(EQ, v.e, C.C((u64)n, 64)), C.C(0, 32), C.C((u64)-1, 32));
      }
      double x = strtod(text.c_str(), &end);
      char back[512]; snprintf(back, sizeof back, kind.c == 0x20 ? "%.*g" : kind.c == 0x21 ? "%.*f" : "%.*e", (int)prec.c - 0x20, x);
      if (*end || text != back) return C.C((u64)-1, 32);
      if (x == 0 && std::signbit(x)) x = -1e-30;
      Expr* eq = C.dcmp(DEQ, v.e, C.DC(x));
      return C.ite(eq, C.C(0, 32), C.C((u64)-1, 32));
    }
    return nullptr;
  }
  // printed form of a double
  void fmtDouble(u64 buf, u64 cap, const Val& v, int kind, int prec, u64& len, bool raw) {
    if (!v.e) {
      char t[512];
      int n = snprintf(t, sizeof t, kind == 0 ? "%.*g" : kind == 1 ? "%.*f" : "%.*e", prec, asD(v.c));
      for (int i = 0; i <= n && (u64)i < cap; i++) storeScalar(buf + i, Elem{0, 1, 0, 8}, mk((uint8_t)t[i]));
      len = n; return;
    }
    Expr* e = v.e;
    if (!raw) {
      e = C.dfmt((u64)kind << 8 | prec, e);
    }
    u64 k = 0;
    storeScalar(buf + k++, Elem{0, 1, 0, 8}, mk(1));
    { storeScalar(buf + k++, Elem{0, 1, 0, 8}, mk(0x20 + kind)); storeScalar(buf + k++, Elem{0, 1, 0, 8}, mk(0x20 + prec)); }
    storeScalar(buf + k, Elem{0, 8, 2, 64}, fromE(e));
    k += 8;
    storeScalar(buf + k, Elem{0, 1, 0, 8}, mk(0));
    len = k;
  }
  int vfmt(u64 buf, u64 cap, const std::string& f, std::function<Val(int)> next) {
    // next(kind): 0 int, 1 pointer, 2 double
    struct Piece { Val v; uint8_t size, kind; };  // a byte, or the 8 byte value of a printed symbolic number
    std::vector<Piece> out;
    auto put = [&](int c) { out.push_back({mk((uint8_t)c), 1, 0}); };
    auto puts = [&](const char* t) { while (*t) put(*t++); };
    auto token = [&](int kind, int prec, Val v, bool dbl) { put(1); put(kind); put(0x20 + prec); out.push_back({v, 8, (uint8_t)(dbl ? 2 : 0)}); };
    for (size_t i = 0; i < f.size(); i++) {
      if (f[i] != '%') { put(f[i]); continue; }
      std::string sp = "%"; i++;
      while (i < f.size() && strchr("-+ #0123456789.*lhzjtL", f[i])) {
        if (f[i] == '*') sp += std::to_string((int)conc(next(0)));
        else sp += f[i];
        i++;
      }
      char c = f[i]; sp += c;
      char t[512];
      size_t digit = sp.find_first_of("123456789"), dot = sp.find('.');
      bool left = sp.find('-') != std::string::npos && sp.find('-') < digit;
      size_t width = digit != std::string::npos && digit < dot ? (size_t)atoi(sp.c_str() + digit) : 0;
      if (c == '%') put('%');
      else if (c == 'c') { Val v = next(0); if (v.e && v.e->w > 8) v = fromE(C.extract(v.e, 0, 8)); v.c &= 0xff; for (size_t k = 1; !left && k < width; k++) put(' '); out.push_back({v, 1, 0}); for (size_t k = 1; left && k < width; k++) put(' '); }
      else if (strchr("dixXuo", c)) {
        Val a = next(0);
        bool l = sp.find('l') != std::string::npos || sp.find('z') != std::string::npos || sp.find('j') != std::string::npos || sp.find('t') != std::string::npos;
        if (a.e && !width && dot == std::string::npos && strchr("diu", c)) {  // text of a symbolic integer: kept as a number
          Expr* e = a.e; if (!l && e->w > 32) e = C.extract(e, 0, 32);
          if (e->w < 64) e = c == 'u' ? C.zext(e, 64) : C.sext(e, 64);
          token(0x23, 0, fromE(e), false); continue;
        }
        u64 v = conc(a);
        std::string s2; for (char ch : sp) if (!strchr("lhzjt", ch)) s2 += ch;
        if (l) { s2.insert(s2.size() - 1, "l"); snprintf(t, sizeof t, s2.c_str(), (long)v); }
        else snprintf(t, sizeof t, s2.c_str(), (int)v);
        puts(t);
      } else if (c == 's') {
        u64 p = conc(next(1)); std::vector<Piece> w;
        size_t lim = dot == std::string::npos ? 100000 : (size_t)atoi(sp.c_str() + dot + 1), len = 0;
        while (len < lim) {
          Val v = loadScalar(p, Elem{0, 1, 0, 8});
          if (v.e ? branchVal(C.bin(EQ, v.e, C.C(0, v.e->w))) : !v.c) break;
          w.push_back({v, 1, 0}); p++; len++;
          if (!v.e && v.c == 1) {
            Val k = loadScalar(p, Elem{0, 1, 0, 8}), q = loadScalar(p + 1, Elem{0, 1, 0, 8});
            uint8_t kd = k.c == 0x23 ? 0 : 2;
            w.push_back({k, 1, 0}); w.push_back({q, 1, 0}); w.push_back({loadScalar(p + 2, Elem{0, 8, kd, 64}), 8, kd}); p += 10; len += 10;
          }
        }
        for (size_t k = len; !left && k < width; k++) put(' ');
        out.insert(out.end(), w.begin(), w.end());
        for (size_t k = len; left && k < width; k++) put(' ');
      } else if (strchr("fFgGeE", c)) {
        Val v = next(2);
        if (v.e) {
          int prec = 6; if (dot != std::string::npos) prec = atoi(sp.c_str() + dot + 1);
          int kd = c == 'g' || c == 'G' ? 0 : c == 'f' || c == 'F' ? 1 : 2;
          token(0x20 + kd, prec, fromE(C.dfmt((u64)kd << 8 | prec, v.e)), true);
        } else { snprintf(t, sizeof t, sp.c_str(), asD(v.c)); puts(t); }
      } else throw Unsupported("format conversion");
    }
    u64 pos = 0, n = 0; for (auto& o : out) n += o.size;
    if (cap && buf) {
      u64 m = std::min<u64>(n, cap - 1);
      for (auto& o : out) {
        if (pos + o.size > m) break;
        storeScalar(buf + pos, Elem{0, o.size, o.kind, (uint8_t)(o.size * 8)}, o.v); pos += o.size;
      }
      storeScalar(buf + std::min(pos, m), Elem{0, 1, 0, 8}, mk(0));
    }
    return n;
  }
  Val vaNext(u64 ap, int kind) {
    Val ov = loadScalar(ap + 8, Elem{0, 8, 1, 64});
    Val v = loadScalar(ov.c, Elem{0, 8, (uint8_t)kind, 64});
    storeScalar(ap + 8, Elem{0, 8, 1, 64}, mk(ov.c + 8));
    return v;
  }
  Val roundFn(const Val& x, int mode) {  // 0 round half away, 1 floor, 2 ceil, 3 trunc, 4 rint
    if (!x.e) {
      double v = asD(x.c);
      return mk(bitsD(mode == 0 ? std::round(v) : mode == 1 ? std::floor(v) : mode == 2 ? std::ceil(v) : mode == 3 ? std::trunc(v) : std::nearbyint(v)));
    }
    Expr* e = x.e;
    if (!C.fpMode && (e->op == DFROMS || e->op == DFROMU)) return x;
    if (C.fpMode) {
      if (mode == 1) return fromE(C.dfloor(e));
      if (mode == 0) return fromE(C.raw(DROUNDE, 0, 1, e));
      if (mode == 4) return fromE(C.raw(DROUNDE, 0, 0, e));
      throw Unsupported("rounding function");
    }
    Expr* zero = C.DC(0); Expr* half = C.DC(0.5);
    if (mode == 1) return fromE(C.dfloor(e));
    if (mode == 2) return fromE(C.dneg(C.dfloor(C.dneg(e))));
    if (mode == 4) return fromE(C.raw(DROUNDE, 0, 0, e));
    if (mode == 0) {
      // a result of -0.0 is a distinct value: keep it concrete
      Expr* nz = C.andE(C.dcmp(DLT, e, zero), C.dcmp(DLT, C.DC(-0.5), e));
      if (branchVal(nz)) return mk(bitsD(-0.0));
      Expr* pos = C.dcmp(DLE, zero, e);
      return fromE(C.ite(pos, C.dfloor(C.dbin(DADD, e, half)), C.dneg(C.dfloor(C.dbin(DADD, C.dneg(e), half)))));
    }
    return fromE(C.ite(C.dcmp(DLE, zero, e), C.dfloor(e), C.dneg(C.dfloor(C.dneg(e)))));
  }

  void initBuiltins() {
    auto nopf = [this](std::vector<Val>&, DInst& d) { ret1(d, Val()); };
    for (const char* n : {"llvm.lifetime.start", "llvm.lifetime.end", "llvm.dbg.declare", "llvm.dbg.value", "llvm.dbg.label", "llvm.assume", "llvm.donothing", "llvm.va_end", "llvm.stackrestore",
                          "fflush", "perror", "__cxa_atexit", "atexit", "llvm.prefetch", "setvbuf", "pthread_once", "srand",
                          "llvm.experimental.noalias.scope.decl", "__cxa_end_cleanup"}) B(n, nopf);
    B("llvm.stacksave", nopf);
    // ---- memory ----
    auto mcpy = [this](std::vector<Val>& a, DInst& d) { u64 n = conc(a[2]), p = conc(a[0]), q = conc(a[1]); copyMem(p, q, n); ret1(d, mk(p)); };
    for (const char* n : {"llvm.memcpy", "llvm.memmove", "memcpy", "memmove", "llvm.memcpy.inline"}) B(n, mcpy);
    auto mset = [this](std::vector<Val>& a, DInst& d) { u64 n = conc(a[2]), p = conc(a[0]); Val b = a[1]; if (b.e && b.e->w > 8) b = fromE(C.extract(b.e, 0, 8)); setMem(p, b, n); ret1(d, mk(p)); };
    for (const char* n : {"llvm.memset", "memset"}) B(n, mset);
    B("memcmp", [this](std::vector<Val>& a, DInst& d) { u64 p = conc(a[0]), q = conc(a[1]), n = conc(a[2]); ret1(d, fromE(memcmpE(p, q, n))); });
    B("bcmp", [this](std::vector<Val>& a, DInst& d) { u64 p = conc(a[0]), q = conc(a[1]), n = conc(a[2]); ret1(d, fromE(memcmpE(p, q, n))); });
    B("memchr", [this](std::vector<Val>& a, DInst& d) {
      u64 p = conc(a[0]), n = conc(a[2]);
      Expr* ch = a[1].e ? C.extract(a[1].e, 0, 8) : C.C(a[1].c & 255, 8);
      for (u64 i = 0; i < n; i++) {
        Expr* b = byteE(p + i);
        if (b->op == CONST && b->c == 1 && i + 11 <= n && !(ch->op == CONST && ch->c == 1)) { i += 10; continue; }   // a printed symbolic number
        if (branchVal(C.bin(EQ, b, ch))) { ret1(d, mk(p + i)); return; }
      }
      ret1(d, mk(0)); });
    B("strlen", [this](std::vector<Val>& a, DInst& d) {
      u64 p = conc(a[0]);
      for (u64 i = 0;; i++) {
        Expr* b = byteE(p + i);
        if (b->op == CONST && b->c == 1) { i += 10; continue; }
        if (b->op == CONST ? b->c == 0 : branchVal(C.bin(EQ, b, C.C(0, 8)))) { ret1(d, mk(i)); return; }
      } });
    B("__dynamic_cast", [this](std::vector<Val>& a, DInst& d) {
      u64 p = conc(a[0]);
      if (!p) { ret1(d, mk(0)); return; }
      u64 vt = loadScalar(p, Elem{0, 8, 1, 64}).c;
      u64 ti = loadScalar(vt - 8, Elem{0, 8, 1, 64}).c; i64 top = (i64)loadScalar(vt - 16, Elem{0, 8, 0, 64}).c;
      ret1(d, mk(tiDerives(ti, a[2].c) ? p + top : 0)); });
    auto alloc = [this](uint8_t kind) { return [this, kind](std::vector<Val>& a, DInst& d) {
      u64 n;
      if (a[0].e) {
        Expr* big = C.bin(ULT, C.C(1ull << 30, 64), a[0].e);
        if (branchVal(big)) { if (kind) callNoReturn("_ZSt17__throw_bad_allocv"); else ret1(d, mk(0)); return; }
      }
      n = conc(a[0]);
      if (n > (1ull << 30)) { if (kind) callNoReturn("_ZSt17__throw_bad_allocv"); else ret1(d, mk(0)); return; }
      ret1(d, mk(heapAlloc(n, kind))); }; };
    B("malloc", alloc(0)); B("_Znwm", alloc(1)); B("_Znam", alloc(2));
    B("calloc", [this](std::vector<Val>& a, DInst& d) { u64 n = conc(a[0]) * conc(a[1]); u64 p = heapAlloc(n, 0); setMem(p, Val(), n); ret1(d, mk(p)); });
    B("realloc", [this](std::vector<Val>& a, DInst& d) {
      u64 p = conc(a[0]), n = conc(a[1]); u64 q = heapAlloc(n, 0);
      if (p) { uint32_t id; i64 off; Obj* o = access(p, 0, false, id, off); copyMem(q, p, std::min<u64>(n, o->size)); doFree(p, 0); }
      ret1(d, mk(q)); });
    auto fr = [this](uint8_t kind) { return [this, kind](std::vector<Val>& a, DInst& d) { doFree(conc(a[0]), kind); ret1(d, Val()); }; };
    B("free", fr(0)); B("_ZdlPv", fr(1)); B("_ZdlPvm", fr(1)); B("_ZdaPv", fr(2)); B("_ZdaPvm", fr(2));
    // ---- exceptions ----
    B("__cxa_allocate_exception", [this](std::vector<Val>& a, DInst& d) { ret1(d, mk(heapAlloc(conc(a[0]), 0))); });
    B("__cxa_free_exception", nopf);
    B("__cxa_throw", [this](std::vector<Val>& a, DInst& d) { st->exc[a[0].c] = {a[1].c, a[2].c}; unwind(a[0].c); });
    B("__cxa_begin_catch", [this](std::vector<Val>& a, DInst& d) { st->caught.push_back(a[0].c); ret1(d, a[0]); });
    B("__cxa_get_exception_ptr", [this](std::vector<Val>& a, DInst& d) { ret1(d, a[0]); });
    B("__cxa_end_catch", [this](std::vector<Val>& a, DInst& d) { if (!st->caught.empty()) st->caught.pop_back(); ret1(d, Val()); });
    B("__cxa_rethrow", [this](std::vector<Val>& a, DInst& d) { if (st->caught.empty()) violation("terminate", "rethrow without exception"); unwind(st->caught.back()); });
    B("_Unwind_Resume", [this](std::vector<Val>& a, DInst& d) { u64 e = a[0].c; popFrame(); if (st->frames.empty()) violation("uncaught-exception", "uncaught"); unwind(e); });
    B("llvm.eh.typeid.for", [this](std::vector<Val>& a, DInst& d) { ret1(d, mk(a[0].c ? a[0].c >> 32 : 1)); });
    auto term = [this](const char* w) { std::string s = w; return [this, s](std::vector<Val>& a, DInst& d) { violation("abort", s); }; };
    B("_ZSt9terminatev", term("std::terminate")); B("abort", term("abort")); B("__clang_call_terminate", term("exception left a noexcept function"));
    B("__cxa_pure_virtual", term("pure virtual call")); B("__assert_fail", term("assertion failed")); B("_ZSt21__glibcxx_assert_failPKciS0_S0_", term("libstdc++ assertion")); B("llvm.trap", term("trap")); B("llvm.ubsantrap", term("trap")); B("__stack_chk_fail", term("stack smashing"));
    B("exit", [this](std::vector<Val>& a, DInst& d) { doExit(a[0]); }); B("_exit", [this](std::vector<Val>& a, DInst& d) { doExit(a[0]); });
    // ---- integer intrinsics ----
    auto W = [](DInst& d) { return d.x->argW[0]; };
    auto mm = [this, W](int pred) { return [this, W, pred](std::vector<Val>& a, DInst& d) { int w = W(d); Expr *x = I2E(a[0], w), *y = I2E(a[1], w); ret1(d, fromE(C.ite(icmpE(pred, x, y), x, y))); }; };
    B("llvm.umax", mm(CmpInst::ICMP_UGT)); B("llvm.umin", mm(CmpInst::ICMP_ULT)); B("llvm.smax", mm(CmpInst::ICMP_SGT)); B("llvm.smin", mm(CmpInst::ICMP_SLT));
    auto absf = [this, W](std::vector<Val>& a, DInst& d) { int w = W(d); Expr* x = I2E(a[0], w); ret1(d, fromE(C.ite(C.bin(SLT, x, C.C(0, w)), C.bin(SUB, C.C(0, w), x), x))); };
    B("llvm.abs", absf); B("abs", absf); B("labs", absf); B("llabs", absf);
    B("llvm.ctlz", [this, W](std::vector<Val>& a, DInst& d) { int w = W(d); u64 v = conc(a[0]) & maskw(w); ret1(d, mk(v ? __builtin_clzll(v) - (64 - w) : w)); });
    B("llvm.cttz", [this, W](std::vector<Val>& a, DInst& d) { int w = W(d); u64 v = conc(a[0]) & maskw(w); ret1(d, mk(v ? __builtin_ctzll(v) : w)); });
    B("llvm.ctpop", [this, W](std::vector<Val>& a, DInst& d) { int w = W(d); ret1(d, mk(__builtin_popcountll(conc(a[0]) & maskw(w)))); });
    B("llvm.bswap", [this, W](std::vector<Val>& a, DInst& d) { int w = W(d); u64 v = conc(a[0]); ret1(d, mk(w == 64 ? __builtin_bswap64(v) : w == 32 ? __builtin_bswap32(v) : __builtin_bswap16(v))); });
    auto fsh = [this, W](bool left) { return [this, W, left](std::vector<Val>& a, DInst& d) { int w = W(d);
      if (a[0].e || a[1].e || a[2].e) {
        u64 s = conc(a[2]) % w; Expr *h = I2E(a[0], w), *l = I2E(a[1], w);
        if (!s) { ret1(d, left ? a[0] : a[1]); return; }
        u64 ls = left ? s : w - s;
        ret1(d, fromE(C.bin(OR, C.bin(SHL, h, C.C(ls, w)), C.bin(LSHR, l, C.C(w - ls, w))))); return; }
      u64 s = a[2].c % w; u64 h = a[0].c & maskw(w), l = a[1].c & maskw(w);
      if (!s) { ret1(d, mk(left ? h : l)); return; }
      u64 ls = left ? s : w - s;
      ret1(d, mk(((h << ls) | (l >> (w - ls))) & maskw(w))); }; };
    B("llvm.fshl", fsh(true)); B("llvm.fshr", fsh(false));
    auto ovf = [this, W](EOp op, bool sg) { return [this, W, op, sg](std::vector<Val>& a, DInst& d) {
      int w = W(d); Expr *x = I2E(a[0], w), *y = I2E(a[1], w); Expr* r = C.bin(op, x, y); Expr* o;
      if (x->op == CONST && y->op == CONST) {
        if (sg) { __int128 p = sx(x->c, w), q = sx(y->c, w); __int128 t = op == ADD ? p + q : op == SUB ? p - q : p * q; o = C.C(t != (__int128)sx((u64)t, w), 1); }
        else { unsigned __int128 p = x->c, q = y->c; unsigned __int128 t = op == ADD ? p + q : op == MUL ? p * q : 0; o = op == SUB ? C.C(p < q, 1) : C.C(t > maskw(w), 1); }
      } else if (w <= 32) {
        Expr *X = sg ? C.sext(x, 64) : C.zext(x, 64), *Y = sg ? C.sext(y, 64) : C.zext(y, 64); Expr* t = C.bin(op, X, Y);
        Expr* rr = sg ? C.sext(C.extract(t, 0, w), 64) : C.zext(C.extract(t, 0, w), 64);
        o = C.notE(C.bin(EQ, rr, t));
      } else if (op == ADD && !sg) o = C.bin(ULT, r, x);
      else if (op == SUB && !sg) o = C.bin(ULT, x, y);
      else if (op == MUL && !sg && y->op == CONST && y->c) o = C.bin(ULT, C.C(~0ull / y->c, 64), x);
      else if (op == MUL && !sg && x->op == CONST && x->c) o = C.bin(ULT, C.C(~0ull / x->c, 64), y);
      else if (op == ADD && sg) o = C.andE(C.bin(EQ, C.bin(SLT, x, C.C(0, w)), C.bin(SLT, y, C.C(0, w))), C.notE(C.bin(EQ, C.bin(SLT, x, C.C(0, w)), C.bin(SLT, r, C.C(0, w)))));
      else throw Unsupported("symbolic 64-bit overflow intrinsic");
      setV(d.dst, fromE(r)); setV(d.dst + 1, fromE(o)); finishCall(d); }; };
    B("llvm.uadd.with.overflow", ovf(ADD, false)); B("llvm.usub.with.overflow", ovf(SUB, false)); B("llvm.umul.with.overflow", ovf(MUL, false));
    B("llvm.sadd.with.overflow", ovf(ADD, true)); B("llvm.ssub.with.overflow", ovf(SUB, true)); B("llvm.smul.with.overflow", ovf(MUL, true));
    B("llvm.usub.sat", [this, W](std::vector<Val>& a, DInst& d) { int w = W(d); Expr *x = I2E(a[0], w), *y = I2E(a[1], w); ret1(d, fromE(C.ite(C.bin(ULT, x, y), C.C(0, w), C.bin(SUB, x, y)))); });
    B("llvm.uadd.sat", [this, W](std::vector<Val>& a, DInst& d) { int w = W(d); Expr *x = I2E(a[0], w), *y = I2E(a[1], w); Expr* r = C.bin(ADD, x, y); ret1(d, fromE(C.ite(C.bin(ULT, r, x), C.C(maskw(w), w), r))); });
    B("llvm.expect", [this](std::vector<Val>& a, DInst& d) { ret1(d, a[0]); });
    B("llvm.launder.invariant.group", [this](std::vector<Val>& a, DInst& d) { ret1(d, a[0]); });
    B("llvm.threadlocal.address", [this](std::vector<Val>& a, DInst& d) { ret1(d, a[0]); });
    B("llvm.objectsize", [this](std::vector<Val>& a, DInst& d) { ret1(d, mk(~0ull)); });
    B("llvm.is.constant", [this](std::vector<Val>& a, DInst& d) { ret1(d, mk(0)); });
    // ---- floating point ----
    auto rnd = [this](int mode) { return [this, mode](std::vector<Val>& a, DInst& d) { if (d.x->argK[0] == 3) { float f; uint32_t t = a[0].c; memcpy(&f, &t, 4); Val r = roundFn(mk(bitsD(f)), mode); f = asD(r.c); memcpy(&t, &f, 4); ret1(d, mk(t)); return; } Val r = roundFn(a[0], mode); ret1(d, r); }; };
    B("round", rnd(0)); B("llvm.round", rnd(0)); B("floor", rnd(1)); B("llvm.floor", rnd(1)); B("ceil", rnd(2)); B("llvm.ceil", rnd(2)); B("trunc", rnd(3)); B("llvm.trunc", rnd(3)); B("rint", rnd(4)); B("nearbyint", rnd(4)); B("llvm.rint", rnd(4)); B("llvm.nearbyint", rnd(4));
    B("floorf", rnd(1)); B("ceilf", rnd(2));
    auto lrnd = [this](std::vector<Val>& a, DInst& d) { Val r = roundFn(a[0], 0); if (!r.e) { ret1(d, mk((u64)(i64)asD(r.c))); return; } ret1(d, fromE(C.raw(D2S, 64, 0, r.e))); };
    B("lround", lrnd); B("llround", lrnd);
    auto fabsf_ = [this](std::vector<Val>& a, DInst& d) {
      if (!a[0].e) { ret1(d, mk(a[0].c & (d.x->argK[0] == 3 ? 0x7fffffffu : 0x7fffffffffffffffull))); return; }
      if (C.fpMode) { ret1(d, fromE(C.bits2d(C.bin(AND, C.d2bits(a[0].e), C.C(0x7fffffffffffffffull, 64))))); return; }
      ret1(d, fromE(C.ite(C.dcmp(DLT, a[0].e, C.DC(0)), C.dneg(a[0].e), a[0].e))); };
    B("fabs", fabsf_); B("llvm.fabs", fabsf_);
    auto sq = [this](std::vector<Val>& a, DInst& d) { if (!a[0].e) ret1(d, mk(bitsD(std::sqrt(asD(a[0].c))))); else ret1(d, fromE(C.raw(DSQRT, 0, 0, a[0].e))); };
    B("sqrt", sq); B("llvm.sqrt", sq);
    auto pw = [this](std::vector<Val>& a, DInst& d) {
      if (!a[0].e && !a[1].e) { ret1(d, mk(bitsD(pow(asD(a[0].c), asD(a[1].c))))); return; }
      if (!a[0].e && a[1].e) { ret1(d, fromE(C.dpowInt(asD(a[0].c), a[1].e))); return; }
      ret1(d, fromE(C.dbin(DPOW, D2E(a[0]), D2E(a[1])))); };
    B("pow", pw); B("llvm.pow", pw);
    B("llvm.powi", [this](std::vector<Val>& a, DInst& d) { double n = (double)(int)conc(a[1]); if (!a[0].e) { ret1(d, mk(bitsD(pow(asD(a[0].c), n)))); return; } ret1(d, fromE(C.dbin(DPOW, a[0].e, C.DC(n)))); });
    auto c1 = [this](double (*f)(double)) { return [this, f](std::vector<Val>& a, DInst& d) { if (a[0].e) throw Unsupported("transcendental function of a symbolic value"); ret1(d, mk(bitsD(f(asD(a[0].c))))); }; };
    B("log10", c1(std::log10)); B("log", c1(std::log)); B("exp", c1(std::exp)); B("sin", c1(std::sin)); B("cos", c1(std::cos)); B("llvm.log10", c1(std::log10)); B("llvm.log", c1(std::log)); B("llvm.exp", c1(std::exp));
    auto fmod_ = [this](std::vector<Val>& a, DInst& d) { if (a[0].e || a[1].e) throw Unsupported("fmod"); ret1(d, mk(bitsD(std::fmod(asD(a[0].c), asD(a[1].c))))); };
    B("fmod", fmod_);
    B("llvm.fmuladd", [this](std::vector<Val>& a, DInst& d) { Val t = fbin(DMUL, a[0], a[1], d.x->argK[0]); Val r = fbin(DADD, t, a[2], d.x->argK[0]); ret1(d, r); });
    auto fmm = [this](bool mx) { return [this, mx](std::vector<Val>& a, DInst& d) {
      if (!a[0].e && !a[1].e) { ret1(d, mk(bitsD(mx ? std::fmax(asD(a[0].c), asD(a[1].c)) : std::fmin(asD(a[0].c), asD(a[1].c))))); return; }
      Expr *x = D2E(a[0]), *y = D2E(a[1]); ret1(d, fromE(C.ite(mx ? C.dcmp(DLT, x, y) : C.dcmp(DLT, y, x), y, x))); }; };
    B("llvm.maxnum", fmm(true)); B("llvm.minnum", fmm(false)); B("fmax", fmm(true)); B("fmin", fmm(false));
    B("llvm.copysign", [this](std::vector<Val>& a, DInst& d) { if (a[0].e || a[1].e) throw Unsupported("copysign"); ret1(d, mk(bitsD(std::copysign(asD(a[0].c), asD(a[1].c))))); });
    auto isnan_ = [this](std::vector<Val>& a, DInst& d) { ret1(d, a[0].e ? fromE(C.zext(C.disnan(a[0].e), 32)) : mk(std::isnan(asD(a[0].c)))); };
    B("isnan", isnan_); B("__isnan", isnan_);
    B("llvm.is.fpclass", [this](std::vector<Val>& a, DInst& d) {
      u64 m = a[1].c;
      if (a[0].e) {
        if (C.fpMode) {
          Expr *b = C.d2bits(a[0].e), *ex = C.bin(AND, b, C.C(0x7ff0000000000000ull, 64)), *ma = C.bin(AND, b, C.C(0xfffffffffffffull, 64));
          Expr *isx = C.bin(EQ, ex, C.C(0x7ff0000000000000ull, 64)), *mz = C.bin(EQ, ma, C.C(0, 64)), *neg = C.bin(SLT, b, C.C(0, 64)), *ez = C.bin(EQ, ex, C.C(0, 64)), *nn = C.notE(neg);
          Expr* r = C.F();
          auto add = [&](Expr* e) { r = C.orE(r, e); };
          if (m & 3) add(C.andE(isx, C.notE(mz)));
          if (m & 4) add(C.andE(neg, C.andE(isx, mz))); if (m & 512) add(C.andE(nn, C.andE(isx, mz)));
          if (m & 8) add(C.andE(neg, C.andE(C.notE(isx), C.notE(ez)))); if (m & 256) add(C.andE(nn, C.andE(C.notE(isx), C.notE(ez))));
          if (m & 16) add(C.andE(neg, C.andE(ez, C.notE(mz)))); if (m & 128) add(C.andE(nn, C.andE(ez, C.notE(mz))));
          if (m & 32) add(C.andE(neg, C.andE(ez, mz))); if (m & 64) add(C.andE(nn, C.andE(ez, mz)));
          ret1(d, fromE(r)); return;
        }
        if (!(m & 0x1f8)) { ret1(d, mk(0)); return; }
        if ((m & 0x1f8) == 0x1f8) { ret1(d, mk(1)); return; }
        throw Unsupported("fpclass of a symbolic real");
      }
      double v = asD(a[0].c); bool neg = std::signbit(v); u64 bit;
      switch (std::fpclassify(v)) { case FP_NAN: bit = 3; break; case FP_INFINITE: bit = neg ? 4 : 512; break; case FP_NORMAL: bit = neg ? 8 : 256; break; case FP_SUBNORMAL: bit = neg ? 16 : 128; break; default: bit = neg ? 32 : 64; }
      ret1(d, mk((m & bit) != 0)); });
    // ---- varargs and formatting ----
    B("llvm.va_start", [this](std::vector<Val>& a, DInst& d) {
      u64 p = a[0].c, va = st->frames.back().varargs;
      storeScalar(p, Elem{0, 4, 0, 32}, mk(48)); storeScalar(p + 4, Elem{0, 4, 0, 32}, mk(176)); storeScalar(p + 8, Elem{0, 8, 1, 64}, mk(va)); storeScalar(p + 16, Elem{0, 8, 1, 64}, mk(0)); ret1(d, Val()); });
    B("llvm.va_copy", [this](std::vector<Val>& a, DInst& d) { copyMem(a[0].c, a[1].c, 24); ret1(d, Val()); });
    B("vsnprintf", [this](std::vector<Val>& a, DInst& d) { u64 ap = a[3].c; std::string f = cstr(a[2].c); int n = vfmt(a[0].c, conc(a[1]), f, [&](int k) { return vaNext(ap, k); }); ret1(d, mk((uint32_t)n)); });
    B("snprintf", [this](std::vector<Val>& a, DInst& d) { size_t i = 3; std::string f = cstr(a[2].c); int n = vfmt(a[0].c, conc(a[1]), f, [&](int k) { return a.at(i++); }); ret1(d, mk((uint32_t)n)); });
    B("sprintf", [this](std::vector<Val>& a, DInst& d) { size_t i = 2; std::string f = cstr(a[1].c); int n = vfmt(a[0].c, 1 << 20, f, [&](int k) { return a.at(i++); }); ret1(d, mk((uint32_t)n)); });
    B("symx_fmt_double", [this](std::vector<Val>& a, DInst& d) { u64 len; fmtDouble(conc(a[0]), 512, a[1], conc(a[2]), conc(a[3]), len, false); ret1(d, mk(len)); });
    B("symx_fmt_double_raw", [this](std::vector<Val>& a, DInst& d) { u64 len; fmtDouble(conc(a[0]), 512, a[1], conc(a[2]), conc(a[3]), len, true); ret1(d, mk(len)); });
    // concrete fast path for number parsing: returns 1 and the value when the text is concrete
    B("symx_strtod", [this](std::vector<Val>& a, DInst& d) {  // (text, &value, &consumed, &errno) -> 1 when handled
      u64 p = a[0].c; std::string s; bool ok = true; std::vector<Expr*> sym;
      uint32_t id; i64 off; 
      for (u64 i = 0; ; i++) {
        if (!split(p + i, id, off) || !objR(id) || off < 0 || (u64)off >= objR(id)->size) break;
        Expr* b = simp(byteE(p + i));
        if (b->op != CONST) {
          if (C.fpMode || b->ulo < '0' || b->uhi > '9') { ok = false; break; }
          sym.resize(i + 1, nullptr); sym[i] = b; s += '5'; continue;  // some digit
        }
        if (!b->c) break;
        s += (char)b->c;
        if (s.size() > 4096) break;
      }
      if (!ok) { ret1(d, mk(0)); return; }
      char* end; errno = 0; double v = strtod(s.c_str(), &end);
      size_t used = end - s.c_str(); bool anySym = false;
      for (size_t i = 0; i < used && i < sym.size(); i++) if (sym[i]) anySym = true;
      storeScalar(a[2].c, Elem{0, 8, 0, 64}, mk(used));
      storeScalar(a[3].c, Elem{0, 4, 0, 32}, mk(errno == ERANGE ? 34 : 0));
      if (!anySym) { storeScalar(a[1].c, Elem{0, 8, 2, 64}, mk(bitsD(v))); ret1(d, mk(1)); return; }
      size_t i = 0; bool neg = false;
      while (isspace((unsigned char)s[i])) i++;
      if (s[i] == '+' || s[i] == '-') neg = s[i++] == '-';
      if (!isdigit((unsigned char)s[i]) && s[i] != '.') { ret1(d, mk(0)); return; }
      if (s[i] == '0' && i + 1 < used && (s[i + 1] | 32) == 'x') { ret1(d, mk(0)); return; }
      auto dig = [&](size_t k) { return k < sym.size() && sym[k] ? C.dbin(DSUB, C.dfromu(sym[k]), C.DC(48)) : C.DC(s[k] - '0'); };
      std::vector<size_t> mant; int frac = 0; bool dot = false;
      for (; i < used; i++) { if (s[i] == '.') { dot = true; continue; } if (!isdigit((unsigned char)s[i])) break; mant.push_back(i); if (dot) frac++; }
      if (mant.size() > 18) { ret1(d, mk(0)); return; }
      Expr* m = nullptr; double k = 1; double konst = 0;
      for (size_t q = mant.size(); q-- > 0; k *= 10) { size_t x = mant[q]; if (x < sym.size() && sym[x]) { Expr* t = C.dbin(DMUL, C.DC(k), C.dfromu(sym[x])); m = m ? C.dbin(DADD, m, t) : t; konst -= 48 * k; } else konst += k * (s[x] - '0'); }
      if (m) m = C.dbin(DADD, m, C.DC(konst)); else m = C.DC(konst);
      if (frac) m = C.dbin(DDIV, m, C.DC(pow(10.0, frac)));
      if (i < used) {  // exponent
        i++; bool en = false; if (s[i] == '+' || s[i] == '-') en = s[i++] == '-';
        Expr* x = C.DC(0); for (; i < used; i++) x = C.dbin(DADD, C.dbin(DMUL, x, C.DC(10)), dig(i));
        m = C.dbin(DMUL, m, C.dpowInt(10, en ? C.dneg(x) : x));
      }
      if (neg) m = C.dneg(m);
      storeScalar(a[1].c, Elem{0, 8, 2, 64}, fromE(m));
      ret1(d, mk(1)); });
    // ---- harness API ----
    B("sym_int", [this](std::vector<Val>& a, DInst& d) { ret1(d, symInput(cstr(a[0].c), 32, (i64)(int)conc(a[1]), (i64)(int)conc(a[2]))); });
    B("sym_i64", [this](std::vector<Val>& a, DInst& d) { ret1(d, symInput(cstr(a[0].c), 64, (i64)conc(a[1]), (i64)conc(a[2]))); });
    B("sym_char", [this](std::vector<Val>& a, DInst& d) { Val v = symInput(cstr(a[0].c), 8, (i64)(int)conc(a[1]), (i64)(int)conc(a[2])); if (!v.e) v.c &= 255; ret1(d, v); });
    B("sym_choose", [this](std::vector<Val>& a, DInst& d) {
      std::string nm = freshName(cstr(a[0].c)); i64 n = (int)conc(a[1]);
      if (n <= 0) throw PathEnd{1};
      InputRec r; r.kind = 'I'; r.name = nm; r.e = nullptr;
      for (i64 i = n - 1; i >= 0; i--) {
        State* o = i ? fork() : st;
        State* cur = st; st = o;
        r.c = i; st->inputs.push_back(r);
        ret1(d, mk((uint32_t)i));
        st = cur;
        if (i) work.emplace_back(o);
      } });
    B("sym_double_range", [this](std::vector<Val>& a, DInst& d) {
      std::string nm = freshName(cstr(a[0].c)); double lo = asD(a[1].c), hi = asD(a[2].c);
      Val v;
      if (!C.fpMode && lo == hi) v.c = a[1].c;
      else {
        char k[200]; snprintf(k, sizeof k, "|%a|%a", lo, hi);
        int id = C.getSym(nm + k, true, 0);
        C.syms[id].dranged = !C.fpMode; C.syms[id].dlo = lo; C.syms[id].dhi = hi;
        v.e = C.sym(id);
        if (C.fpMode) { Expr* c = C.andE(C.dcmp(DLE, C.DC(lo), v.e), C.dcmp(DLE, v.e, C.DC(hi)));
          InputRec r; r.kind = 'D'; r.name = nm; r.e = v.e; r.c = 0; st->inputs.push_back(r); assume(c); ret1(d, v); return; }
      }
      InputRec r; r.kind = 'D'; r.name = nm; r.e = v.e; r.c = v.e ? 0 : v.c; st->inputs.push_back(r);
      ret1(d, v); });
    B("sym_double_any", [this](std::vector<Val>& a, DInst& d) {
      std::string nm = freshName(cstr(a[0].c));
      int id = C.getSym(nm + "|any", true, 0); Val v; v.e = C.sym(id);
      InputRec r; r.kind = 'D'; r.name = nm; r.e = v.e; r.c = 0; st->inputs.push_back(r);
      ret1(d, v); });
    B("sym_assume", [this](std::vector<Val>& a, DInst& d) { Expr* c = C.notE(C.bin(EQ, I2E(a[0], 32), C.C(0, 32))); assume(c); ret1(d, Val()); });
    B("sym_check", [this](std::vector<Val>& a, DInst& d) { std::string l = cstr(a[1].c); Expr* c = C.notE(C.bin(EQ, I2E(a[0], 32), C.C(0, 32))); checkE(c, l); ret1(d, Val()); });
    for (bool near : {false, true}) B(near ? "sym_check_near" : "sym_check_eqd", [this, near](std::vector<Val>& a, DInst& d) {
      std::string l = cstr(a[near ? 3 : 2].c);
      double tol = near ? asD(a[2].c) : 1e-9;
      if (!a[0].e && !a[1].e) {
        double x = asD(a[0].c), y = asD(a[1].c);
        nChecks++; checksByLabel[l]++;
        if (x == y || std::fabs(x - y) <= tol * (1 + std::fabs(x) + std::fabs(y)) || (std::isnan(x) && std::isnan(y))) nFolded++;
        else violation(l, "values differ: " + std::to_string(x) + " vs " + std::to_string(y));
      } else {
        Expr *x = D2E(a[0]), *y = D2E(a[1]);
        bool inf = false;
        for (Expr* p : {x, y}) if (p->op == DCONST && !std::isfinite(asD(p->c))) inf = true;
        if (inf && !C.fpMode) { nChecks++; checksByLabel[l]++; violation(l, "a value is not finite"); }
        Expr *df = C.dbin(DSUB, x, y), *t = C.DC(1e-9);
        checkE(C.dcmp(DEQ, x, y), l, C.orE(C.dcmp(DLT, t, df), C.dcmp(DLT, df, C.dneg(t))));
      }
      ret1(d, Val()); });
    B("sym_reach", [this](std::vector<Val>& a, DInst& d) { reach[cstr(a[0].c)]++; ret1(d, Val()); });
    B("sym_obs_int", [this](std::vector<Val>& a, DInst& d) { ObsRec o; o.label = cstr(a[0].c); o.kind = 'I'; o.e = a[1].e; o.c = a[1].c; st->obs.push_back(o); ret1(d, Val()); });
    B("sym_obs_d", [this](std::vector<Val>& a, DInst& d) { ObsRec o; o.label = cstr(a[0].c); o.kind = 'D'; o.e = a[1].e; o.c = a[1].c; st->obs.push_back(o); ret1(d, Val()); });
    B("sym_try_exit", [this](std::vector<Val>& a, DInst& d) {
      u64 p = conc(a[0]);
      if (p < FNBASE || (p - FNBASE) / 16 >= fnByIdx.size()) memErr("bad function");
      pushFrame(fnByIdx[(p - FNBASE) / 16], {a[1]}, -1);
      st->frames.back().marker = true; });
    B("sym_exit_code", [this](std::vector<Val>& a, DInst& d) { ret1(d, st->exitCode); });
    B("sym_symbolic", [this](std::vector<Val>& a, DInst& d) { ret1(d, mk(1)); });
    B("sym_fp", [this](std::vector<Val>& a, DInst& d) { ret1(d, mk(C.fpMode)); });
    B("sym_param", [this](std::vector<Val>& a, DInst& d) { std::string n = cstr(a[0].c); auto it = params.find(n); ret1(d, it == params.end() ? a[1] : mk((u64)it->second & maskw(32))); });
    B("symx_unfmt", [this](std::vector<Val>& a, DInst& d) { Val v = a[0]; if (v.e && v.e->op == DFMT) v = fromE(v.e->a); ret1(d, v); });
    B("sym_is_concrete", [this](std::vector<Val>& a, DInst& d) { ret1(d, mk(!a[0].e)); });
    B("sym_trace", [this](std::vector<Val>& a, DInst& d) { fprintf(stderr, "trace %s %s\n", cstr(a[0].c).c_str(), a[1].e ? C.str(a[1].e, 20).c_str() : std::to_string((int)a[1].c).c_str()); ret1(d, Val()); });
    B("sym_traced", [this](std::vector<Val>& a, DInst& d) { fprintf(stderr, "trace %s %s\n", cstr(a[0].c).c_str(), a[1].e ? C.str(a[1].e, 20).c_str() : std::to_string(asD(a[1].c)).c_str()); ret1(d, Val()); });
    B("sym_and", [this](std::vector<Val>& a, DInst& d) { Expr* x = C.notE(C.bin(EQ, I2E(a[0], 32), C.C(0, 32))); Expr* y = C.notE(C.bin(EQ, I2E(a[1], 32), C.C(0, 32))); ret1(d, fromE(C.zext(C.andE(x, y), 32))); });
    B("sym_or", [this](std::vector<Val>& a, DInst& d) { Expr* x = C.notE(C.bin(EQ, I2E(a[0], 32), C.C(0, 32))); Expr* y = C.notE(C.bin(EQ, I2E(a[1], 32), C.C(0, 32))); ret1(d, fromE(C.zext(C.orE(x, y), 32))); });
    B("sym_ite", [this](std::vector<Val>& a, DInst& d) { Expr* x = C.notE(C.bin(EQ, I2E(a[0], 32), C.C(0, 32))); ret1(d, fromE(C.ite(x, I2E(a[1], 32), I2E(a[2], 32)))); });
    B("sym_ited", [this](std::vector<Val>& a, DInst& d) { Expr* x = C.notE(C.bin(EQ, I2E(a[0], 32), C.C(0, 32))); ret1(d, fromE(C.ite(x, D2E(a[1]), D2E(a[2])))); });
    B("sym_eqd", [this](std::vector<Val>& a, DInst& d) { ret1(d, fromE(C.zext(C.dcmp(DEQ, D2E(a[0]), D2E(a[1])), 32))); });
  }
