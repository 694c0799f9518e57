// symx: bounded symbolic executor for LLVM IR (clang-18) on top of Z3.
// Explores every feasible path of a harness, deciding branches, memory safety and
// assertions with the solver.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/raw_ostream.h>
#include <unistd.h>
#include <fstream>
#include <random>
#include <deque>

using namespace llvm;
typedef ::Op EOp;

struct Val { u64 c = 0; Expr* e = nullptr; };

static const u64 BIAS = 0x10000000ull;
static const u64 FNBASE = 0x7F00000000000000ull;

enum Kind : uint8_t { HEAP, STACK, GLOB, CONSTG, EXTERN };

struct Obj {
  u64 size = 0;
  Kind kind = HEAP;
  uint8_t alloc = 0;  // 0 malloc, 1 new, 2 new[]
  std::vector<uint8_t> data;
  std::vector<Expr*> sym;       // empty or size entries
  std::vector<uint8_t> undef;   // empty or size flags
  std::string name;
};
typedef std::shared_ptr<Obj> ObjP;
static const int CH = 64;
struct Chunk { ObjP o[CH]; int live = 0; };

struct DFunc;
struct Frame {
  DFunc* f; uint32_t pc; uint32_t base; int32_t retDst; int32_t invokeNormal = -1, invokeUnwind = -1; uint32_t callPc = 0;
  std::vector<uint32_t> allocas;
  u64 varargs = 0;
  bool marker = false;  // sym_try_exit marker
};
struct InputRec { char kind; std::string name; Expr* e; u64 c; };
struct ObsRec { std::string label; char kind; Expr* e; u64 c; };

struct State {
  std::vector<Val> stk;
  std::vector<Frame> frames;
  std::vector<std::shared_ptr<Chunk>> chunks;
  uint32_t nObj = 0;
  std::vector<Expr*> pc;
  std::map<Expr*, u64> eqs;         // expression known to equal constant
  std::map<int, Expr*> symEq;       // symbol -> const
  std::shared_ptr<Model> model;
  std::map<std::string, int> nameCount;
  std::vector<InputRec> inputs;
  std::vector<ObsRec> obs;
  std::map<u64, std::pair<u64, u64>> exc;  // exception object addr -> (typeinfo, dtor)
  std::vector<u64> caught;
  u64 curExc = 0;
  Val exitCode;
  u64 instrs = 0;
  uint32_t forkDepth = 0;
  bool approxBranch = false;
};

struct PathEnd { int why; };  // 0 done, 1 infeasible/assume, 2 violation, 3 unsupported, 4 limit
struct Restart {};

enum DOp : uint16_t {
  I_BIN, I_ICMP, I_FCMP, I_FBIN, I_FNEG, I_LOAD, I_STORE, I_ALLOCA, I_GEP, I_CAST, I_SELECT, I_BR, I_JMP, I_SWITCH,
  I_RET, I_CALL, I_UNREACH, I_EXTRACTV, I_INSERTV, I_LANDINGPAD, I_RESUME, I_FREEZE, I_VAARG, I_ATOMICRMW, I_CMPXCHG, I_NOP, I_PHI
};
struct Edge { uint32_t target; std::vector<std::pair<int32_t, int32_t>> copies; };
struct GepTerm { int32_t v; uint32_t w; u64 scale; };
struct Elem { uint32_t off; uint8_t bytes; uint8_t kind; uint8_t bits; };  // kind 0 int,1 ptr,2 double,3 float
struct DInst {
  DOp op; uint16_t sub = 0; uint8_t w = 0, w2 = 0, k = 0, k2 = 0; int32_t dst = -1, a = 0, b = 0, c = 0; u64 imm = 0;
  const Instruction* I = nullptr; struct DX* x = nullptr;
};
struct DX {
  std::vector<int32_t> args; std::vector<GepTerm> gep; std::vector<Elem> elems; std::vector<Edge> edges; std::vector<u64> cases;
  std::vector<uint8_t> byval; std::vector<u64> byvalSize; std::vector<uint8_t> argK, argW; Function* callee = nullptr; int builtin = -1;
  std::vector<std::pair<int, u64>> clauses;  // (0 catch,1 filter ; typeinfo addr)
  bool cleanup = false; uint32_t nret = 0; std::vector<Elem> retElems;
};
struct DFunc {
  Function* F; std::string name; std::vector<DInst> code; std::vector<uint32_t> blockStart; uint32_t nslots = 0; std::vector<uint32_t> argSlots; bool decoded = false; int strHook = 0; bool repo = false; uint64_t calls = 0;
};

struct Violation { std::string label, detail, where; std::vector<InputRec> inputs; std::shared_ptr<Model> model; std::vector<ObsRec> obs; };

struct Engine {
  LLVMContext ctx;
  std::unique_ptr<Module> M;
  const DataLayout* DL;
  Ctx C;
  std::unique_ptr<Solver> S;
  std::vector<Val> consts;
  std::map<const Constant*, std::vector<int32_t>> constIdx;
  std::map<const GlobalValue*, u64> gaddr;
  std::vector<DFunc*> fnByIdx;
  std::map<const Function*, DFunc*> fns;
  std::map<std::string, int> builtins;
  std::vector<std::unique_ptr<State>> work;
  std::mt19937_64 rng{12345};
  State* st = nullptr;
  // options
  u64 maxInstrs = 30000000; double timeout = 600; int maxViol = 3; bool opaqueFmt = false; u64 maxForkVals = 600; size_t maxWitness = 40;
  std::map<std::string, i64> params;
  bool initMode = false;
  // stats
  u64 nPaths = 0, nPruned = 0, nForks = 0, nInstr = 0, nChecks = 0, nFolded = 0, nBySolver = 0, nByIdentity = 0, nInconcl = 0, nUnsup = 0, nLimit = 0, nBlocks = 0;
  std::map<std::string, u64> reach, unsup, checksByLabel, inconclBy;
  std::vector<Violation> viols; std::multiset<std::string> violLabels;
  std::vector<Violation> witnesses;
  bool timedOut = false;
  double tFirstViol = 0;   // exploration goes on only for a while after the first violation
  bool outOfBudget() {
    double n = nowS();
    if (n - t0 > timeout || (tFirstViol && n - tFirstViol > 90)) return timedOut = true;
    if (n - tMem > 0.5) { tMem = n; FILE* f = fopen("/proc/self/statm", "r"); long a = 0, r = 0; if (f) { if (fscanf(f, "%ld %ld", &a, &r) != 2) r = 0; fclose(f); } if (r * 4096.0 > memLimit) { memOut = true; return timedOut = true; } }
    return false;
  }
  double tMem = 0, memLimit = 3.2e9; bool memOut = false;
  double t0;
  std::set<std::string> encoded;

  // ---------------- memory ----------------
  ObjP& objSlot(uint32_t id) {
    auto& ch = st->chunks[id / CH];
    if (ch.use_count() > 1) ch = std::make_shared<Chunk>(*ch);
    return ch->o[id % CH];
  }
  Obj* objR(uint32_t id) {
    if (id >= st->nObj) return nullptr;
    auto& ch = st->chunks[id / CH];
    return ch ? ch->o[id % CH].get() : nullptr;
  }
  Obj* objW(uint32_t id) {
    ObjP& p = objSlot(id);
    if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
    return p.get();
  }
  uint32_t newObj(u64 size, Kind k, const std::string& name = "") {
    uint32_t id = st->nObj++;
    if (id / CH >= st->chunks.size()) st->chunks.push_back(std::make_shared<Chunk>());
    auto o = std::make_shared<Obj>();
    o->size = size; o->kind = k; o->data.assign(size, 0); o->name = name;
    if (k == HEAP || k == STACK) o->undef.assign(size, 1);
    objSlot(id) = o;
    st->chunks[id / CH]->live++;
    return id;
  }
  void freeObj(uint32_t id) {
    auto& ch = st->chunks[id / CH];
    if (!ch || !ch->o[id % CH]) return;
    objSlot(id) = nullptr;
    auto& c2 = st->chunks[id / CH];
    c2->live--;
    if (c2->live == 0 && id / CH + 1 < st->chunks.size()) c2 = nullptr;
  }
  static u64 addrOf(uint32_t id) { return ((u64)(id + 16) << 32) + BIAS; }
  bool split(u64 addr, uint32_t& id, i64& off) {
    u64 hi = addr >> 32;
    if (hi < 16 || hi >= 16 + (u64)st->nObj) return false;
    id = hi - 16; off = (i64)(addr & 0xffffffffull) - (i64)BIAS;
    return true;
  }
  std::string where() {
    std::string s;
    int n = 0;
    for (int i = (int)st->frames.size() - 1; i >= 0 && n < 12; i--, n++) {
      s += (n ? " < " : "") + llvm::demangle(st->frames[i].f->name).substr(0, 90);
    }
    return s;
  }
  [[noreturn]] void memErr(const std::string& what) { violation("memory", what); }
  Obj* access(u64 addr, u64 n, bool write, uint32_t& id, i64& off) {
    if (!split(addr, id, off)) memErr(addr < 0x10000 ? "null pointer dereference" : "wild pointer dereference");
    Obj* o = objR(id);
    if (!o) memErr("access to freed or out-of-scope object");
    if (off < 0 || (u64)off + n > o->size) memErr((write ? "out-of-bounds write of " : "out-of-bounds read of ") + std::to_string(n) + " bytes at offset " + std::to_string(off) + " in object of size " + std::to_string(o->size) + " " + o->name);
    if (write) {
      if (o->kind == CONSTG) memErr("write to constant " + o->name);
      o = objW(id);
    }
    return o;
  }
  Expr* freshUninit(int w) {
    int k = st->nameCount["uninit"]++;
    int id = C.getSym("uninit#" + std::to_string(k) + "w" + std::to_string(w), false, w);
    C.syms[id].internal = true;
    return C.sym(id);
  }
  void defUndef(Obj*& o, uint32_t id, i64 off, u64 n) {
    if (o->undef.empty()) return;
    bool any = false;
    for (u64 i = 0; i < n; i++) if (o->undef[off + i]) { any = true; break; }
    if (!any) return;
    o = objW(id);
    if (o->sym.empty()) o->sym.assign(o->size, nullptr);
    if (n <= 8) {
      bool all = true;
      for (u64 i = 0; i < n; i++) if (!o->undef[off + i]) all = false;
      if (all) {
        Expr* e = freshUninit(n * 8);
        for (u64 i = 0; i < n; i++) { o->undef[off + i] = 0; o->sym[off + i] = C.extract(e, 8 * i, 8); }
        return;
      }
    }
    for (u64 i = 0; i < n; i++) if (o->undef[off + i]) { o->undef[off + i] = 0; o->sym[off + i] = freshUninit(8); }
  }
  Val loadScalar(u64 addr, const Elem& el) {
    uint32_t id; i64 off;
    u64 n = el.bytes;
    Obj* o = access(addr, n, false, id, off);
    defUndef(o, id, off, n);
    Val v;
    bool symb = false;
    if (!o->sym.empty()) for (u64 i = 0; i < n; i++) if (o->sym[off + i]) { symb = true; break; }
    if (!symb) {
      u64 x = 0; memcpy(&x, &o->data[off], n);
      v.c = el.kind == 0 ? x & maskw(el.bits) : x;
      return v;
    }
    Expr* e = nullptr;
    for (u64 i = 0; i < n; i++) {
      Expr* b = o->sym[off + i] ? o->sym[off + i] : C.C(o->data[off + i], 8);
      e = e ? C.concat(b, e) : b;
    }
    if (el.kind == 2) e = C.bits2d(e);
    else if (el.kind == 0 && el.bits < n * 8) e = C.extract(e, 0, el.bits);
    return fromE(e);
  }
  Val fromE(Expr* e) { Val v; if (e->op == CONST || e->op == DCONST) v.c = e->c; else v.e = e; return v; }
  void storeScalar(u64 addr, const Elem& el, const Val& v) {
    uint32_t id; i64 off;
    u64 n = el.bytes;
    Obj* o = access(addr, n, true, id, off);
    if (!o->undef.empty()) for (u64 i = 0; i < n; i++) o->undef[off + i] = 0;
    if (!v.e) {
      memcpy(&o->data[off], &v.c, n);
      if (!o->sym.empty()) for (u64 i = 0; i < n; i++) o->sym[off + i] = nullptr;
      return;
    }
    Expr* e = v.e;
    if (el.kind == 2) e = C.d2bits(e);
    else if (el.bits < n * 8) e = C.zext(e, n * 8);
    if (o->sym.empty()) o->sym.assign(o->size, nullptr);
    for (u64 i = 0; i < n; i++) {
      Expr* b = n == 1 ? e : C.extract(e, 8 * i, 8);
      if (b->op == CONST) { o->data[off + i] = b->c; o->sym[off + i] = nullptr; }
      else o->sym[off + i] = b;
    }
  }
  void copyMem(u64 dst, u64 src, u64 n) {
    if (!n) return;
    uint32_t si, di; i64 so, dof;
    Obj* s = access(src, n, false, si, so);
    std::vector<uint8_t> d(s->data.begin() + so, s->data.begin() + so + n), u;
    std::vector<Expr*> sy;
    if (!s->sym.empty()) sy.assign(s->sym.begin() + so, s->sym.begin() + so + n);
    if (!s->undef.empty()) u.assign(s->undef.begin() + so, s->undef.begin() + so + n);
    Obj* o = access(dst, n, true, di, dof);
    std::copy(d.begin(), d.end(), o->data.begin() + dof);
    if (!sy.empty()) { if (o->sym.empty()) o->sym.assign(o->size, nullptr); std::copy(sy.begin(), sy.end(), o->sym.begin() + dof); }
    else if (!o->sym.empty()) std::fill(o->sym.begin() + dof, o->sym.begin() + dof + n, nullptr);
    if (!u.empty()) { if (o->undef.empty()) o->undef.assign(o->size, 0); std::copy(u.begin(), u.end(), o->undef.begin() + dof); }
    else if (!o->undef.empty()) std::fill(o->undef.begin() + dof, o->undef.begin() + dof + n, 0);
  }
  void setMem(u64 dst, Val b, u64 n) {
    if (!n) return;
    uint32_t di; i64 off;
    Obj* o = access(dst, n, true, di, off);
    for (u64 i = 0; i < n; i++) {
      if (!o->undef.empty()) o->undef[off + i] = 0;
      if (b.e) { if (o->sym.empty()) o->sym.assign(o->size, nullptr); o->sym[off + i] = b.e; }
      else { o->data[off + i] = b.c; if (!o->sym.empty()) o->sym[off + i] = nullptr; }
    }
  }
  Expr* byteE(u64 addr) {
    Elem el{0, 1, 0, 8};
    Val v = loadScalar(addr, el);
    return v.e ? v.e : C.C(v.c, 8);
  }
  std::string cstr(u64 addr) {
    std::string s;
    for (;;) {
      Val v = loadScalar(addr++, Elem{0, 1, 0, 8});
      if (v.e) v.c = concretize(v.e);
      if (!v.c) break;
      s += (char)v.c;
      if (s.size() > 100000) break;
    }
    return s;
  }

  // ---------------- constraints ----------------
  Expr* simp(Expr* e) {
    if (e->op == CONST || e->op == DCONST) return e;
    auto it = st->eqs.find(e);
    if (it != st->eqs.end()) return e->w ? C.C(it->second, e->w) : C.DCb(it->second);
    if (st->symEq.empty()) return e;
    std::unordered_map<Expr*, Expr*> memo;
    return C.subst(e, st->symEq, memo);
  }
  void noteEq(Expr* c) {
    // record equalities implied by constraint c being true
    if (c->op == AND && c->w == 1) { noteEq(c->a); noteEq(c->b); return; }
    if (c->op == EQ && c->b->op == CONST) {
      st->eqs[c->a] = c->b->c;
      if (c->a->op == SYM) st->symEq[c->a->c] = C.C(c->b->c, c->a->w);
    } else if (c->w == 1) {
      if (c->op == SYM) st->symEq[c->c] = C.T();
      st->eqs[c] = 1;
      Expr* n = C.notE(c);
      if (n->op != CONST) { st->eqs[n] = 0; if (n->op == SYM) st->symEq[n->c] = C.F(); }
    }
  }
  // a few concrete guesses at the symbols c depends on, before a query in nonlinear arithmetic
  std::shared_ptr<Model> guess(const std::vector<Expr*>& q, Expr* c) {
    auto m = std::make_shared<Model>(*st->model);
    for (int t = 0; t < 120; t++) {
      for (int s : *c->syms) {
        if (t && rng() % 3 == 0) continue;
        auto& si = C.syms[s];
        if (si.isD) {
          double lo = si.dranged ? std::max(si.dlo, -4.0) : -4.0, hi = si.dranged ? std::min(si.dhi, 4.0) : 4.0;
          if (lo > hi) { lo = si.dlo; hi = si.dhi; }
          double scale = t < 40 ? 1 : t < 80 ? 8 : 64;
          while ((hi - lo) * scale < 8 && scale < 1e9) scale *= 2;
          i64 a = (i64)std::ceil(lo * scale), b = (i64)std::floor(hi * scale);
          if (a > b) continue;
          m->set(s, bitsD((double)(a + (i64)(rng() % (u64)(b - a + 1))) / scale));
        } else if (si.ranged && si.hi - si.lo < 1000000) m->set(s, (u64)(si.lo + (i64)(rng() % (u64)(si.hi - si.lo + 1))) & maskw(si.width));
      }
      bool ok = true;
      for (size_t i = q.size(); ok && i-- > 0;) if (!(C.eval(q[i], *m) & 1) || C.uncertain) ok = false;
      if (ok) return m;
    }
    return nullptr;
  }
  Res feasible(Expr* c, std::shared_ptr<Model>* out) {
    if (c->op == CONST) { if (out) *out = nullptr; return c->c ? SAT : UNSAT; }
    std::vector<Expr*> q = S->slice(st->pc, c);
    q.push_back(c);
    if (out && c->hasD && !C.fpMode && S->nonlinear(c)) { auto g = guess(q, c); if (g) { *out = g; return SAT; } }
    return S->check(q, out);
  }
  void mergeModel(Expr* c, const std::shared_ptr<Model>& m) {
    if (!m) return;
    auto nm = std::make_shared<Model>(*st->model);
    for (size_t i = 0; i < m->v.size(); i++) if (m->has[i]) nm->set(i, m->v[i]);
    st->model = nm;
  }
  void addPC(Expr* c) {
    if (c->op == CONST) return;
    if (c->op == AND && c->w == 1) { addPC(c->a); addPC(c->b); return; }
    if (std::find(st->pc.begin(), st->pc.end(), c) == st->pc.end()) st->pc.push_back(c);
    noteEq(c);
  }
  bool modelSays(Expr* c, bool& val) {
    val = C.eval(c, *st->model) & 1;
    return !C.uncertain;
  }
  // assume c (no fork); ends path if infeasible
  void assume(Expr* c) {
    c = simp(c);
    if (c->op == CONST) { if (!c->c) throw PathEnd{1}; return; }
    bool v;
    if (modelSays(c, v) && v) { addPC(c); return; }
    std::shared_ptr<Model> m;
    Res r = feasible(c, &m);
    if (r == UNSAT) throw PathEnd{1};
    if (r == UNKNOWN) st->approxBranch = true;
    mergeModel(c, m);
    addPC(c);
  }
  State* fork() {
    nForks++;
    State* n = new State(*st);
    n->forkDepth++;
    return n;
  }
  // decide a branch. returns true/false for the current state; pushes the other side (via onOther)
  bool branch(Expr* c, std::function<void(State*)> onFalse) {
    c = simp(c);
    if (c->op == CONST) return c->c;
    Expr* n = C.notE(c);
    bool v;
    bool known = modelSays(c, v);
    std::shared_ptr<Model> mt, mf;
    Res rt, rf;
    bool haveT = false, haveF = false;
    if (known && v) { rt = SAT; haveT = true; rf = feasible(n, &mf); }
    else if (known) { rf = SAT; haveF = true; rt = feasible(c, &mt); }
    else { rt = feasible(c, &mt); rf = rt == UNSAT ? SAT : feasible(n, &mf); if (rt == UNSAT) haveF = !st->approxBranch; }
    if (rt == UNSAT && rf == UNSAT) throw PathEnd{1};
    if (rt == UNSAT) { if (!haveF) mergeModel(n, mf); noteEq(n); return false; }
    if (rf == UNSAT) { if (!haveT) mergeModel(c, mt); noteEq(c); return true; }
    // both (possibly) feasible
    State* o = fork();
    State* cur = st;
    st = o;
    if (rf == UNKNOWN) st->approxBranch = true;
    if (!haveF) mergeModel(n, mf);
    addPC(n);
    st = cur;
    onFalse(o);
    work.emplace_back(o);
    if (rt == UNKNOWN) st->approxBranch = true;
    if (!haveT) mergeModel(c, mt);
    addPC(c);
    return true;
  }
  bool usesInternal(Expr* e) {
    for (int i : *e->syms) if (C.syms[i].internal) return true;
    return false;
  }
  // make a value concrete, forking over all feasible values; re-executes the current instruction in siblings
  u64 concretize(Expr* e0) {
    Expr* e = simp(e0);
    if (e->op == CONST || e->op == DCONST) return e->c;
    if (e->w == 0) throw Unsupported("concretising a symbolic double");
    std::vector<std::pair<u64, std::shared_ptr<Model>>> vals;
    u64 v0 = C.eval(e, *st->model);
    if (C.uncertain) { std::shared_ptr<Model> m; Res r = feasible(C.T(), &m); (void)r; }
    vals.push_back({v0, nullptr});
    Expr* excl = C.notE(C.bin(EQ, e, C.C(v0, e->w)));
    for (;;) {
      std::shared_ptr<Model> m;
      Res r = feasible(excl, &m);
      if (r == UNSAT) break;
      if (r == UNKNOWN || !m) { nInconcl++; inconclBy["concretize"]++; break; }
      Model full = *st->model;
      for (size_t i = 0; i < m->v.size(); i++) if (m->has[i]) full.set(i, m->v[i]);
      u64 v = C.eval(e, full);
      bool dup = false;
      for (auto& p : vals) if (p.first == v) dup = true;
      if (dup) { nInconcl++; inconclBy["concretize-dup"]++; break; }
      vals.push_back({v, m});
      if (vals.size() > maxForkVals && usesInternal(e)) memErr("address or size taken from uninitialised memory");
      // too many to follow: the first few are followed (an access outside its object shows there), the rest is reported as not covered
      if (vals.size() > maxForkVals) { nInconcl++; inconclBy["too many values"]++; unsup["symbolic address/size with more than " + std::to_string(maxForkVals) + " values in " + where()]++; vals.resize(6); break; }
      excl = C.andE(excl, C.notE(C.bin(EQ, e, C.C(v, e->w))));
    }
    if (vals.size() > 1) {
      for (size_t i = vals.size() - 1; i >= 1; i--) {
        State* o = fork();
        State* cur = st; st = o;
        mergeModel(e, vals[i].second);
        Expr* c = C.bin(EQ, e, C.C(vals[i].first, e->w));
        addPC(c); st->eqs[e] = vals[i].first; st->eqs[e0] = vals[i].first;
        st = cur;
        work.emplace_back(o);
      }
      addPC(C.bin(EQ, e, C.C(v0, e->w)));
    }
    st->eqs[e] = v0; st->eqs[e0] = v0;
    return v0;
  }
  // follow one value of a double that cannot be kept symbolic (single precision): its inputs are fixed to values that
  // use all their digits, and the path counts as not covered
  double pin(Expr* e0, const char* why) {
    Expr* e = simp(e0);
    if (e->op == DCONST) return asD(e->c);
    for (int s : *e->syms) if (C.syms[s].internal) throw Unsupported(why);
    auto holds = [&](const Model& m) { for (size_t i = st->pc.size(); i-- > 0;) if (!(C.eval(st->pc[i], m) & 1) || C.uncertain) return false; return true; };
    auto draw = [&](Model& m, int s) {
      auto& si = C.syms[s];
      if (st->symEq.count(s)) return;
      if (si.isD) { double lo = si.dranged ? si.dlo : -100, hi = si.dranged ? si.dhi : 100; m.set(s, bitsD(lo + (hi - lo) * ((rng() % 999983 + 0.37) / 999984.0))); }
      else if (si.ranged) m.set(s, (u64)(si.lo + (i64)(rng() % ((u64)(si.hi - si.lo) + 1 ? (u64)(si.hi - si.lo) + 1 : 1))) & maskw(si.width));
      else m.set(s, rng() & maskw(si.width));
    };
    Model best = *st->model; bool all = false;
    for (int t = 0; t < 30 && !all; t++) { Model m = *st->model; for (int s : *e->syms) draw(m, s); if (holds(m)) { best = m; all = true; } }
    if (!all) for (int t = 0; t < 3; t++) for (int s : *e->syms) { Model m = best; draw(m, s); if (holds(m)) best = m; }
    auto nm = std::make_shared<Model>(best); st->model = nm;
    for (int s : *e->syms) {
      if (st->symEq.count(s)) continue;
      bool ok; u64 v = nm->get(s, ok); Expr* x = C.sym(s);
      if (C.syms[s].isD) { st->pc.push_back(C.dcmp(DEQ, x, C.DCb(v))); st->symEq[s] = C.DCb(v); }
      else addPC(C.bin(EQ, x, C.C(v, C.syms[s].width)));
    }
    nInconcl++; inconclBy["one value followed"]++; unsup[std::string(why) + ": one value followed in " + where()]++;
    u64 r = C.eval(e, *st->model);
    if (getenv("SYMX_PIN")) fprintf(stderr, "pin %.9g all %d unc %d %s pc %zu\n", asD(r), (int)all, (int)C.uncertain, C.str(e, 12).c_str(), st->pc.size());
    return asD(r);
  }
  u64 conc(const Val& v) { return v.e ? concretize(v.e) : v.c; }

  // ---------------- violations ----------------
  std::shared_ptr<Model> niceModel(const std::vector<Expr*>& cons, Expr* neg, std::shared_ptr<Model> base) {
    // try small "generic" values for real symbols, which replay robustly
    std::vector<int> ds;
    for (auto& in : st->inputs) if (in.kind == 'D' && in.e) ds.push_back(in.e->c);
    if (ds.empty()) return base;
    for (int t = 0; t < 600; t++) {
      auto m = std::make_shared<Model>(*base);
      if (t >= 400) {  // values close to each other
        double unit = std::pow(2.0, -(double)(4 + rng() % 40)), at = 0; bool have = false;
        for (int s : ds) {
          auto& si = C.syms[s]; double lo = si.dranged ? si.dlo : -8.0, hi = si.dranged ? si.dhi : 8.0;
          if (!have || rng() % 4 == 0) { at = lo + (hi - lo) * (double)(rng() % 4097) / 4096; have = true; }
          m->set(s, bitsD(std::min(hi, std::max(lo, at + unit * ((double)(rng() % 9) - 4)))));
        }
      } else
      for (int s : ds) {
        auto& si = C.syms[s];
        double lo = si.dranged ? std::max(si.dlo, -4.0) : -4.0, hi = si.dranged ? std::min(si.dhi, 4.0) : 4.0;
        if (lo > hi) { lo = si.dlo; hi = si.dhi; }
        double scale = t < 100 ? 1 : t < 200 ? 8 : 64;
        while ((hi - lo) * scale < 8 && scale < 1e9) scale *= 2;
        i64 a = (i64)std::ceil(lo * scale), b = (i64)std::floor(hi * scale);
        if (a > b) continue;
        m->set(s, bitsD((double)(a + (i64)(rng() % (u64)(b - a + 1))) / scale));
      }
      bool ok = true;
      for (Expr* c : cons) { if (!(C.eval(c, *m) & 1) || C.uncertain) { ok = false; break; } }
      if (ok && neg) { if (!(C.eval(neg, *m) & 1) || C.uncertain) ok = false; }
      if (ok) return m;
    }
    return base;
  }
  void record(const std::string& label, const std::string& detail, std::shared_ptr<Model> m, Expr* neg) {
    if (!tFirstViol) tFirstViol = nowS();
    if (violLabels.count(label + "|" + detail) >= 3 || (int)viols.size() >= maxViol * 4) return;
    int same = 0;
    for (auto& v : viols) if (v.label == label) same++;
    if (same >= maxViol) return;
    violLabels.insert(label + "|" + detail);
    Violation v; v.label = label; v.detail = detail; v.where = where(); v.inputs = st->inputs; v.obs = st->obs;
    v.model = m ? m : st->model;
    if (!C.fpMode) v.model = niceModel(st->pc, neg, v.model);
    viols.push_back(v);
    if (getenv("SYMX_DEBUG")) fprintf(stderr, "violation %s: %s\n   at %s\n", label.c_str(), detail.c_str(), v.where.c_str());
  }
  [[noreturn]] void violation(const std::string& label, const std::string& detail) {
    record(label, detail, nullptr, nullptr);
    throw PathEnd{2};
  }
  std::shared_ptr<Model> merged(const std::shared_ptr<Model>& m) {
    auto nm = std::make_shared<Model>(*st->model);
    if (m) for (size_t i = 0; i < m->v.size(); i++) if (m->has[i]) nm->set(i, m->v[i]);
    return nm;
  }
  // wrong: a violation large enough to show outside rounding (constants folded in a different order differ in the last place)
  void checkE(Expr* c, const std::string& label, Expr* wrong = nullptr) {
    nChecks++; checksByLabel[label]++;
    c = simp(c);
    if (c->op == CONST) {
      if (c->c) { nFolded++; return; }
      violation(label, "assertion is false on this path");
    }
    if (!C.fpMode && c->op == DEQ && S->identical(c->a, c->b)) { nByIdentity++; return; }
    Expr* n = C.notE(c);
    std::shared_ptr<Model> m;
    // quick refutation with the current model or small generic values
    bool v;
    std::shared_ptr<Model> bad;
    if (modelSays(c, v) && !v) bad = st->model;
    else if (c->hasD && !C.fpMode) {
      auto g = niceModel(st->pc, n, st->model);
      if (g != st->model) bad = g;
    }
    if (!bad) {
      S->important = true;
      Res r = feasible(n, &m);
      S->important = false;
      if (r == UNSAT) { nBySolver++; if (!c->hasD) addPC(c); return; }
      if (r == UNKNOWN) { nInconcl++; inconclBy["check:" + label]++; addPC(c); return; }
      bad = merged(m);
    }
    if (wrong && !C.fpMode && c->op == DEQ && S->rounding(c->a, c->b)) { nByIdentity++; return; }
    if (wrong && !C.fpMode && !S->nonlinear(wrong)) {
      std::shared_ptr<Model> m2;
      Res r = feasible(wrong, &m2);
      if (r == UNSAT) { nBySolver++; return; }
      if (r == SAT && m2) { bad = merged(m2); n = wrong; }
    }
    record(label, "assertion can be false", bad, n);
    // continue on the side where it holds, if any
    {
      std::shared_ptr<Model> m2;
      Res r = feasible(c, &m2);
      if (r == UNSAT) throw PathEnd{2};
      mergeModel(c, m2);
      addPC(c);
    }
  }

  // ---------------- decoding ----------------
  void flatten(Type* T, u64 off, std::vector<Elem>& out) {
    if (T->isStructTy()) {
      auto* sl = DL->getStructLayout(cast<StructType>(T));
      for (unsigned i = 0; i < T->getStructNumElements(); i++) flatten(T->getStructElementType(i), off + sl->getElementOffset(i), out);
    } else if (T->isArrayTy()) {
      u64 es = DL->getTypeAllocSize(T->getArrayElementType());
      for (u64 i = 0; i < T->getArrayNumElements(); i++) flatten(T->getArrayElementType(), off + i * es, out);
    } else if (auto* VT = dyn_cast<FixedVectorType>(T)) {
      u64 es = DL->getTypeAllocSize(VT->getElementType());
      for (u64 i = 0; i < VT->getNumElements(); i++) flatten(VT->getElementType(), off + i * es, out);
    } else if (T->isIntegerTy()) {
      unsigned b = T->getIntegerBitWidth();
      if (b > 64) throw Unsupported("integer wider than 64 bits");
      out.push_back(Elem{(uint32_t)off, (uint8_t)((b + 7) / 8), 0, (uint8_t)b});
    } else if (T->isPointerTy()) out.push_back(Elem{(uint32_t)off, 8, 1, 64});
    else if (T->isDoubleTy()) out.push_back(Elem{(uint32_t)off, 8, 2, 64});
    else if (T->isFloatTy()) out.push_back(Elem{(uint32_t)off, 4, 3, 32});
    else if (T->isX86_FP80Ty()) { out.push_back(Elem{(uint32_t)off, 10, 4, 80}); }
    else if (T->isVoidTy()) {}
    else throw Unsupported("type");
  }
  uint32_t nElems(Type* T) { std::vector<Elem> e; flatten(T, 0, e); return e.size(); }
  u64 fnAddr(const Function* F) {
    DFunc* d = getFn(const_cast<Function*>(F));
    for (size_t i = 0;; i++) if (fnByIdx[i] == d) return FNBASE + i * 16;
  }
  DFunc* getFn(Function* F) {
    auto it = fns.find(F);
    if (it != fns.end()) return it->second;
    DFunc* d = new DFunc; d->F = F; d->name = F->getName().str();
    fns[F] = d; fnByIdx.push_back(d);
    return d;
  }
  u64 globalAddr(const GlobalValue* G) {
    if (auto* F = dyn_cast<Function>(G)) { auto it = gaddr.find(G); if (it != gaddr.end()) return it->second; u64 a = fnAddr(F); gaddr[G] = a; return a; }
    if (auto* A = dyn_cast<GlobalAlias>(G)) return cval(A->getAliasee()).c;
    auto it = gaddr.find(G);
    if (it != gaddr.end()) return it->second;
    throw Unsupported("global " + G->getName().str());
  }
  Val cval(const Constant* K) {
    Val v;
    if (auto* CI = dyn_cast<ConstantInt>(K)) { if (CI->getBitWidth() > 64) throw Unsupported("wide const"); v.c = CI->getZExtValue(); return v; }
    if (auto* CF = dyn_cast<ConstantFP>(K)) {
      if (CF->getType()->isDoubleTy()) v.c = bitsD(CF->getValueAPF().convertToDouble());
      else if (CF->getType()->isFloatTy()) { float f = CF->getValueAPF().convertToFloat(); uint32_t b; memcpy(&b, &f, 4); v.c = b; }
      else { APFloat x = CF->getValueAPF(); bool li; x.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); v.c = bitsD(x.convertToDouble()); }
      return v;
    }
    if (isa<ConstantPointerNull>(K) || isa<UndefValue>(K) || isa<ConstantAggregateZero>(K)) return v;
    if (auto* G = dyn_cast<GlobalValue>(K)) { v.c = globalAddr(G); return v; }
    if (auto* CE = dyn_cast<ConstantExpr>(K)) {
      switch (CE->getOpcode()) {
        case Instruction::GetElementPtr: {
          auto* GO = cast<GEPOperator>(CE);
          APInt off(64, 0);
          if (!GO->accumulateConstantOffset(*DL, off)) throw Unsupported("const gep");
          v.c = cval(cast<Constant>(GO->getPointerOperand())).c + off.getSExtValue();
          return v; }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return cval(CE->getOperand(0));
        case Instruction::Sub: v.c = cval(CE->getOperand(0)).c - cval(CE->getOperand(1)).c; return v;
        case Instruction::Add: v.c = cval(CE->getOperand(0)).c + cval(CE->getOperand(1)).c; return v;
        case Instruction::Trunc: v.c = cval(CE->getOperand(0)).c & maskw(CE->getType()->getIntegerBitWidth()); return v;
        default: throw Unsupported("constant expression");
      }
    }
    if (auto* D = dyn_cast<DSOLocalEquivalent>(K)) return cval(D->getGlobalValue());
    throw Unsupported("constant kind");
  }
  void flatConst(const Constant* K, std::vector<Val>& out) {
    Type* T = K->getType();
    if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
      unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
      for (unsigned i = 0; i < n; i++) flatConst(K->getAggregateElement(i), out);
    } else out.push_back(cval(K));
  }
  void writeConst(u64 addr, const Constant* K) {
    Type* T = K->getType();
    if (isa<UndefValue>(K) || isa<ConstantAggregateZero>(K) || isa<ConstantPointerNull>(K)) return;
    if (auto* CS = dyn_cast<ConstantDataSequential>(K)) {
      StringRef d = CS->getRawDataValues();
      uint32_t id; i64 off; split(addr, id, off);
      Obj* o = objW(id);
      memcpy(&o->data[off], d.data(), d.size());
      return;
    }
    if (T->isStructTy()) {
      auto* sl = DL->getStructLayout(cast<StructType>(T));
      for (unsigned i = 0; i < T->getStructNumElements(); i++) writeConst(addr + sl->getElementOffset(i), K->getAggregateElement(i));
      return;
    }
    if (T->isArrayTy()) {
      u64 es = DL->getTypeAllocSize(T->getArrayElementType());
      for (u64 i = 0; i < T->getArrayNumElements(); i++) writeConst(addr + i * es, K->getAggregateElement(i));
      return;
    }
    if (T->isX86_FP80Ty()) return;
    Val v = cval(K);
    uint32_t id; i64 off; split(addr, id, off);
    Obj* o = objW(id);
    memcpy(&o->data[off], &v.c, DL->getTypeStoreSize(T));
  }
  int32_t addConst(Val v) { consts.push_back(v); return -(int32_t)consts.size(); }

  struct FnCtx { DFunc* d; std::map<const Value*, uint32_t> slot; };
  std::vector<int32_t> operands(FnCtx& fc, Value* V) {
    if (auto* K = dyn_cast<Constant>(V)) {
      auto it = constIdx.find(K);
      if (it != constIdx.end()) return it->second;
      std::vector<Val> vs; flatConst(K, vs);
      std::vector<int32_t> r;
      for (auto& v : vs) r.push_back(addConst(v));
      constIdx[K] = r;
      return r;
    }
    if (isa<MetadataAsValue>(V) || isa<InlineAsm>(V)) return {addConst(Val())};
    uint32_t s = fc.slot.at(V);
    uint32_t n = nElems(V->getType());
    std::vector<int32_t> r;
    for (uint32_t i = 0; i < n; i++) r.push_back(s + i);
    return r;
  }
  int32_t op1(FnCtx& fc, Value* V) { auto r = operands(fc, V); if (r.size() != 1) throw Unsupported("aggregate operand"); return r[0]; }
  static uint8_t kindOf(Type* T) { return T->isDoubleTy() ? 2 : T->isFloatTy() ? 3 : T->isPointerTy() ? 1 : T->isX86_FP80Ty() ? 4 : 0; }
  static uint8_t bitsOf(Type* T) { return T->isIntegerTy() ? std::min(255u, T->getIntegerBitWidth()) : T->isFloatTy() ? 32 : 64; }

  Edge mkEdge(FnCtx& fc, BasicBlock* from, BasicBlock* to, std::map<BasicBlock*, uint32_t>& bs) {
    Edge e; e.target = bs[to];
    for (auto& I : *to) {
      auto* P = dyn_cast<PHINode>(&I);
      if (!P) break;
      auto src = operands(fc, P->getIncomingValueForBlock(from));
      uint32_t d = fc.slot[P];
      for (size_t i = 0; i < src.size(); i++) e.copies.push_back({(int32_t)(d + i), src[i]});
    }
    return e;
  }
  void decode(DFunc* d) {
    if (d->decoded) return;
    d->decoded = true;
    FnCtx fc; fc.d = d;
    Function* F = d->F;
    std::string dm = llvm::demangle(d->name);
    { size_t p = dm.find("catnip::"), q = dm.find_first_of("<("); d->repo = (p != std::string::npos && (q == std::string::npos || p < q)) || dm.substr(0, 11) == "calcJ_main("; }
    uint32_t n = 0;
    for (auto& A : F->args()) { fc.slot[&A] = n; uint32_t k = nElems(A.getType()); for (uint32_t i = 0; i < k; i++) d->argSlots.push_back(n + i); n += k; }
    std::map<BasicBlock*, uint32_t> bs;
    uint32_t pc = 0;
    for (auto& BB : *F) {
      bs[&BB] = pc;
      for (auto& I : BB) {
        if (!I.getType()->isVoidTy()) { fc.slot[&I] = n; n += nElems(I.getType()); }
        if (!isa<PHINode>(I)) pc++;
      }
    }
    d->nslots = n;
    for (auto& BB : *F) for (auto& I : BB) {
      if (isa<PHINode>(I)) continue;
      DInst di; di.I = &I;
      if (!I.getType()->isVoidTy()) di.dst = fc.slot[&I];
      decodeInst(fc, I, di, bs);
      d->code.push_back(di);
    }
  }
  void decodeInst(FnCtx& fc, Instruction& I, DInst& di, std::map<BasicBlock*, uint32_t>& bs) {
    if (I.getType()->isVectorTy()) throw Unsupported("vector instruction in " + fc.d->name);
    if (auto* B = dyn_cast<BinaryOperator>(&I)) {
      di.a = op1(fc, B->getOperand(0)); di.b = op1(fc, B->getOperand(1));
      di.w = bitsOf(B->getType()); di.k = kindOf(B->getType());
      if (B->getType()->isFloatingPointTy()) {
        di.op = I_FBIN;
        switch (B->getOpcode()) { case Instruction::FAdd: di.sub = DADD; break; case Instruction::FSub: di.sub = DSUB; break; case Instruction::FMul: di.sub = DMUL; break; case Instruction::FDiv: di.sub = DDIV; break; default: throw Unsupported("frem"); }
        return;
      }
      di.op = I_BIN;
      switch (B->getOpcode()) {
        case Instruction::Add: di.sub = ADD; break; case Instruction::Sub: di.sub = SUB; break; case Instruction::Mul: di.sub = MUL; break;
        case Instruction::UDiv: di.sub = UDIV; break; case Instruction::SDiv: di.sub = SDIV; break; case Instruction::URem: di.sub = UREM; break; case Instruction::SRem: di.sub = SREM; break;
        case Instruction::And: di.sub = AND; break; case Instruction::Or: di.sub = OR; break; case Instruction::Xor: di.sub = XOR; break;
        case Instruction::Shl: di.sub = SHL; break; case Instruction::LShr: di.sub = LSHR; break; case Instruction::AShr: di.sub = ASHR; break;
        default: throw Unsupported("binop");
      }
      return;
    }
    if (auto* Cc = dyn_cast<ICmpInst>(&I)) {
      if (Cc->getOperand(0)->getType()->isVectorTy()) throw Unsupported("vector icmp");
      di.op = I_ICMP; di.a = op1(fc, Cc->getOperand(0)); di.b = op1(fc, Cc->getOperand(1)); di.w = bitsOf(Cc->getOperand(0)->getType()); di.sub = Cc->getPredicate();
      return;
    }
    if (auto* Fc = dyn_cast<FCmpInst>(&I)) { di.op = I_FCMP; di.a = op1(fc, Fc->getOperand(0)); di.b = op1(fc, Fc->getOperand(1)); di.k = kindOf(Fc->getOperand(0)->getType()); di.sub = Fc->getPredicate(); return; }
    if (isa<UnaryOperator>(I)) { di.op = I_FNEG; di.a = op1(fc, I.getOperand(0)); di.k = kindOf(I.getType()); return; }
    if (auto* L = dyn_cast<LoadInst>(&I)) { di.op = I_LOAD; di.a = op1(fc, L->getPointerOperand()); di.x = new DX; flatten(L->getType(), 0, di.x->elems); return; }
    if (auto* Sx = dyn_cast<StoreInst>(&I)) { di.op = I_STORE; di.a = op1(fc, Sx->getPointerOperand()); di.x = new DX; flatten(Sx->getValueOperand()->getType(), 0, di.x->elems); di.x->args = operands(fc, Sx->getValueOperand()); return; }
    if (auto* A = dyn_cast<AllocaInst>(&I)) { di.op = I_ALLOCA; di.a = op1(fc, A->getArraySize()); di.imm = DL->getTypeAllocSize(A->getAllocatedType()); return; }
    if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
      di.op = I_GEP; di.a = op1(fc, G->getPointerOperand()); di.x = new DX;
      i64 off = 0;
      for (auto it = gep_type_begin(G); it != gep_type_end(G); ++it) {
        Value* idx = it.getOperand();
        if (auto* ST = it.getStructTypeOrNull()) { off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
        u64 sc = DL->getTypeAllocSize(it.getIndexedType());
        if (auto* CI = dyn_cast<ConstantInt>(idx)) { off += CI->getSExtValue() * (i64)sc; continue; }
        di.x->gep.push_back(GepTerm{op1(fc, idx), bitsOf(idx->getType()), sc});
      }
      di.imm = off;
      return;
    }
    if (auto* Ci = dyn_cast<CastInst>(&I)) {
      di.op = I_CAST; di.a = op1(fc, Ci->getOperand(0)); di.sub = Ci->getOpcode(); di.w = bitsOf(Ci->getOperand(0)->getType()); di.w2 = bitsOf(Ci->getType()); di.k = kindOf(Ci->getOperand(0)->getType()); di.k2 = kindOf(Ci->getType());
      return;
    }
    if (auto* Se = dyn_cast<SelectInst>(&I)) {
      di.op = I_SELECT; di.a = op1(fc, Se->getCondition()); di.x = new DX; di.x->args = operands(fc, Se->getTrueValue()); auto f = operands(fc, Se->getFalseValue());
      di.c = di.x->args.size(); di.x->args.insert(di.x->args.end(), f.begin(), f.end()); flatten(Se->getType(), 0, di.x->elems);
      return;
    }
    if (auto* Br = dyn_cast<BranchInst>(&I)) {
      di.x = new DX;
      if (Br->isConditional()) { di.op = I_BR; di.a = op1(fc, Br->getCondition()); di.x->edges.push_back(mkEdge(fc, I.getParent(), Br->getSuccessor(0), bs)); di.x->edges.push_back(mkEdge(fc, I.getParent(), Br->getSuccessor(1), bs)); }
      else { di.op = I_JMP; di.x->edges.push_back(mkEdge(fc, I.getParent(), Br->getSuccessor(0), bs)); }
      return;
    }
    if (auto* Sw = dyn_cast<SwitchInst>(&I)) {
      di.op = I_SWITCH; di.a = op1(fc, Sw->getCondition()); di.w = bitsOf(Sw->getCondition()->getType()); di.x = new DX;
      di.x->edges.push_back(mkEdge(fc, I.getParent(), Sw->getDefaultDest(), bs));
      for (auto& cs : Sw->cases()) { di.x->cases.push_back(cs.getCaseValue()->getZExtValue()); di.x->edges.push_back(mkEdge(fc, I.getParent(), cs.getCaseSuccessor(), bs)); }
      return;
    }
    if (auto* R = dyn_cast<ReturnInst>(&I)) { di.op = I_RET; di.x = new DX; if (R->getReturnValue()) di.x->args = operands(fc, R->getReturnValue()); return; }
    if (isa<UnreachableInst>(I)) { di.op = I_UNREACH; return; }
    if (auto* E = dyn_cast<ExtractValueInst>(&I)) {
      di.op = I_EXTRACTV; di.x = new DX;
      auto ops = operands(fc, E->getAggregateOperand());
      uint32_t o = aggOff(E->getAggregateOperand()->getType(), E->getIndices());
      uint32_t n = nElems(E->getType());
      di.x->args.assign(ops.begin() + o, ops.begin() + o + n);
      return;
    }
    if (auto* E = dyn_cast<InsertValueInst>(&I)) {
      di.op = I_EXTRACTV; di.x = new DX;
      auto ops = operands(fc, E->getAggregateOperand());
      auto v = operands(fc, E->getInsertedValueOperand());
      uint32_t o = aggOff(E->getAggregateOperand()->getType(), E->getIndices());
      for (size_t i = 0; i < v.size(); i++) ops[o + i] = v[i];
      di.x->args = ops;
      return;
    }
    if (auto* CB = dyn_cast<CallBase>(&I)) {
      di.op = I_CALL; di.x = new DX;
      if (CB->isInlineAsm()) { di.op = I_NOP; return; }
      if (auto* II = dyn_cast<IntrinsicInst>(&I)) {
        switch (II->getIntrinsicID()) {
          case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::prefetch:
            di.op = I_NOP; return;
          default: break;
        }
      }
      Value* callee = CB->getCalledOperand()->stripPointerCasts();
      if (auto* A = dyn_cast<GlobalAlias>(callee)) callee = A->getAliaseeObject();
      if (auto* F = dyn_cast<Function>(callee)) di.x->callee = F; else di.a = op1(fc, CB->getCalledOperand());
      for (unsigned i = 0; i < CB->arg_size(); i++) {
        Value* av = CB->getArgOperand(i);
        auto o = operands(fc, av);
        for (size_t j = 0; j < o.size(); j++) {
          di.x->args.push_back(o[j]);
          di.x->byval.push_back(CB->isByValArgument(i));
          di.x->byvalSize.push_back(CB->isByValArgument(i) ? (u64)DL->getTypeAllocSize(CB->getParamByValType(i)) : 0);
          std::vector<Elem> el; 
          if (!isa<MetadataAsValue>(av)) flatten(av->getType(), 0, el);
          di.x->argK.push_back(el.empty() ? 0 : el[std::min(j, el.size() - 1)].kind); di.x->argW.push_back(el.empty() ? 64 : el[std::min(j, el.size() - 1)].bits);
        }
      }
      if (!I.getType()->isVoidTy()) flatten(I.getType(), 0, di.x->retElems);
      if (auto* Inv = dyn_cast<InvokeInst>(&I)) {
        di.sub = 1;
        di.x->edges.push_back(mkEdge(fc, I.getParent(), Inv->getNormalDest(), bs));
        di.x->edges.push_back(mkEdge(fc, I.getParent(), Inv->getUnwindDest(), bs));
      }
      return;
    }
    if (auto* LP = dyn_cast<LandingPadInst>(&I)) {
      di.op = I_LANDINGPAD; di.x = new DX; di.x->cleanup = LP->isCleanup();
      for (unsigned i = 0; i < LP->getNumClauses(); i++) {
        if (LP->isCatch(i)) di.x->clauses.push_back({0, cval(LP->getClause(i)).c});
        else di.x->clauses.push_back({1, 0});
      }
      return;
    }
    if (isa<ResumeInst>(I)) { di.op = I_RESUME; di.x = new DX; di.x->args = operands(fc, I.getOperand(0)); return; }
    if (isa<FreezeInst>(I)) { di.op = I_EXTRACTV; di.x = new DX; di.x->args = operands(fc, I.getOperand(0)); return; }
    if (isa<FenceInst>(I)) { di.op = I_NOP; return; }
    if (auto* R = dyn_cast<AtomicRMWInst>(&I)) { di.op = I_ATOMICRMW; di.sub = R->getOperation(); di.a = op1(fc, R->getPointerOperand()); di.b = op1(fc, R->getValOperand()); di.w = bitsOf(R->getType()); di.x = new DX; flatten(R->getType(), 0, di.x->elems); return; }
    if (auto* X = dyn_cast<AtomicCmpXchgInst>(&I)) { di.op = I_CMPXCHG; di.a = op1(fc, X->getPointerOperand()); di.b = op1(fc, X->getCompareOperand()); di.c = op1(fc, X->getNewValOperand()); di.w = bitsOf(X->getNewValOperand()->getType()); di.x = new DX; flatten(X->getNewValOperand()->getType(), 0, di.x->elems); return; }
    if (isa<VAArgInst>(I)) throw Unsupported("va_arg instruction");
    throw Unsupported(std::string("instruction ") + I.getOpcodeName());
  }
  uint32_t aggOff(Type* T, ArrayRef<unsigned> idx) {
    uint32_t o = 0;
    for (unsigned i : idx) {
      if (T->isStructTy()) { for (unsigned k = 0; k < i; k++) o += nElems(T->getStructElementType(k)); T = T->getStructElementType(i); }
      else { o += i * nElems(T->getArrayElementType()); T = T->getArrayElementType(); }
    }
    return o;
  }

#include "interp.inc"
};

#include "main.inc"
