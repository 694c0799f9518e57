// symx: expression DAG, simplifier, evaluator and Z3 back end
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <memory>
#include <algorithm>
#include <stdexcept>
#include <functional>
#include <z3++.h>
#include <poll.h>
#include <unistd.h>
#include <csignal>
#include <cerrno>
#include <ctime>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>

typedef uint64_t u64;
typedef int64_t i64;

enum Op : uint8_t {
  CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT,
  // double sort (width 0)
  DCONST, DSYM, DADD, DSUB, DMUL, DDIV, DNEG, DFLOOR, DROUNDE, DSQRT, DPOW, DITE, DFROMS, DFROMU, DFMT, BITS2D,
  // predicates / conversions from double
  D2BITS, DEQ, DLT, DLE, DISNAN, D2S
};

struct SymInfo {
  std::string name;
  bool isD = false;
  int width = 0;       // bv width
  i64 lo = 0, hi = 0;  // declared signed range (bv)
  bool ranged = false;
  bool dranged = false; double dlo = 0, dhi = 0;
  bool internal = false;  // uninitialised memory etc.
};

typedef std::vector<int> SymSet;  // sorted

struct Expr {
  Op op;
  uint8_t w;  // 0 = double
  bool hasD;
  uint32_t id;
  u64 c;  // const / extract lo / symbol id / fmt spec
  Expr *a, *b, *d;
  u64 ulo, uhi;  // unsigned range
  i64 slo, shi;  // signed range
  const SymSet* syms;
  uint32_t evEpoch = 0;
  u64 evVal = 0;
};

inline u64 maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sx(u64 v, int w) {
  if (w >= 64) return (i64)v;
  u64 m = 1ull << (w - 1);
  v &= maskw(w);
  return (i64)((v ^ m) - m);
}
inline double asD(u64 b) { double d; memcpy(&d, &b, 8); return d; }
inline u64 bitsD(double d) { u64 b; memcpy(&b, &d, 8); return b; }

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

struct Model {
  std::vector<u64> v;  // by symbol id
  std::vector<char> has;
  u64 get(int s, bool& ok) const {
    if (s < (int)v.size() && has[s]) { ok = true; return v[s]; }
    ok = false;
    return 0;
  }
  void set(int s, u64 x) {
    if (s >= (int)v.size()) { v.resize(s + 1, 0); has.resize(s + 1, 0); }
    v[s] = x; has[s] = 1;
  }
};

struct Ctx {
  bool fpMode = false;  // true: IEEE via FPA; false: exact reals
  std::vector<SymInfo> syms;
  std::unordered_map<std::string, int> symByName;
  struct KeyHash { size_t operator()(const Expr* e) const {
    u64 h = e->op * 0x9E3779B97F4A7C15ull + e->w;
    auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
    mix(e->c); mix((u64)e->a); mix((u64)e->b); mix((u64)e->d);
    return h; } };
  struct KeyEq { bool operator()(const Expr* x, const Expr* y) const {
    return x->op == y->op && x->w == y->w && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d; } };
  std::unordered_set<Expr*, KeyHash, KeyEq> table;
  std::set<SymSet> symsets;
  SymSet emptySet;
  uint32_t nextId = 1;
  uint32_t epoch = 0;

  const SymSet* intern(const SymSet& s) { return &*symsets.insert(s).first; }
  const SymSet* uni(const SymSet* x, const SymSet* y) {
    if (x == y || y->empty()) return x;
    if (x->empty()) return y;
    SymSet r;
    std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(r));
    return intern(r);
  }

  Expr* raw(Op op, int w, u64 c, Expr* a = nullptr, Expr* b = nullptr, Expr* d = nullptr) {
    Expr k; k.op = op; k.w = w; k.c = c; k.a = a; k.b = b; k.d = d;
    auto it = table.find(&k);
    if (it != table.end()) return *it;
    Expr* e = new Expr(k);
    e->id = nextId++;
    e->hasD = (op >= DCONST) || (a && a->hasD) || (b && b->hasD) || (d && d->hasD);
    const SymSet* s = intern(emptySet);
    if (op == SYM || op == DSYM) s = intern(SymSet{(int)c});
    if (a) s = uni(s, a->syms);
    if (b) s = uni(s, b->syms);
    if (d) s = uni(s, d->syms);
    e->syms = s;
    computeRange(e);
    table.insert(e);
    return e;
  }

  void computeRange(Expr* e) {
    int w = e->w;
    if (w == 0) { e->ulo = e->uhi = 0; e->slo = e->shi = 0; return; }
    u64 M = maskw(w);
    e->ulo = 0; e->uhi = M;
    e->slo = (w == 64) ? INT64_MIN : -(i64)(1ull << (w - 1));
    e->shi = (w == 64) ? INT64_MAX : (i64)((1ull << (w - 1)) - 1);
    auto setU = [&](u64 lo, u64 hi) {
      e->ulo = lo; e->uhi = hi;
      if (hi <= (M >> 1)) { e->slo = (i64)lo; e->shi = (i64)hi; }
      else if (lo > (M >> 1)) { e->slo = sx(lo, w); e->shi = sx(hi, w); }
    };
    auto setS = [&](i64 lo, i64 hi) {
      e->slo = lo; e->shi = hi;
      if (lo >= 0) { e->ulo = lo; e->uhi = hi; }
      else if (hi < 0) { e->ulo = (u64)lo & M; e->uhi = (u64)hi & M; }
    };
    switch (e->op) {
      case CONST: e->ulo = e->uhi = e->c; e->slo = e->shi = sx(e->c, w); break;
      case SYM: { auto& s = syms[e->c]; if (s.ranged) setS(s.lo, s.hi); break; }
      case ZEXT: setU(e->a->ulo, e->a->uhi); break;
      case SEXT: setS(e->a->slo, e->a->shi); break;
      case ADD: {
        __int128 lo = (__int128)e->a->slo + e->b->slo, hi = (__int128)e->a->shi + e->b->shi;
        if (lo >= e->slo && hi <= e->shi) setS((i64)lo, (i64)hi);
        else { unsigned __int128 l = (unsigned __int128)e->a->ulo + e->b->ulo, h = (unsigned __int128)e->a->uhi + e->b->uhi;
          if (h <= M) setU((u64)l, (u64)h); }
        break; }
      case SUB: {
        __int128 lo = (__int128)e->a->slo - e->b->shi, hi = (__int128)e->a->shi - e->b->slo;
        if (lo >= e->slo && hi <= e->shi) setS((i64)lo, (i64)hi);
        break; }
      case MUL: {
        unsigned __int128 h = (unsigned __int128)e->a->uhi * e->b->uhi;
        if (h <= (M >> 1)) setU(e->a->ulo * e->b->ulo, (u64)h);
        else if (w < 64) { // small signed ranges
          __int128 p[4] = {(__int128)e->a->slo * e->b->slo, (__int128)e->a->slo * e->b->shi, (__int128)e->a->shi * e->b->slo, (__int128)e->a->shi * e->b->shi};
          __int128 lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4);
          if (lo >= e->slo && hi <= e->shi) setS((i64)lo, (i64)hi);
        }
        break; }
      case AND: setU(0, std::min(e->a->uhi, e->b->uhi)); break;
      case OR: { u64 m = e->a->uhi | e->b->uhi; u64 h = m; h |= h >> 1; h |= h >> 2; h |= h >> 4; h |= h >> 8; h |= h >> 16; h |= h >> 32; setU(std::max(e->a->ulo, e->b->ulo), h & M); break; }
      case UDIV: if (e->b->ulo > 0) setU(e->a->ulo / e->b->uhi, e->a->uhi / e->b->ulo); break;
      case UREM: if (e->b->uhi > 0 && e->b->ulo > 0) setU(0, std::min(e->a->uhi, e->b->uhi - 1)); break;
      case LSHR: if (e->b->op == CONST && e->b->c < 64) setU(e->a->ulo >> e->b->c, e->a->uhi >> e->b->c); break;
      case SHL: if (e->b->op == CONST && e->b->c < (u64)w) { unsigned __int128 h = (unsigned __int128)e->a->uhi << e->b->c; if (h <= M) setU(e->a->ulo << e->b->c, (u64)h); } break;
      case EXTRACT: if (e->c == 0 && e->a->uhi <= M) setU(e->a->ulo, e->a->uhi);
        else if (e->c == 0 && e->a->slo >= e->slo && e->a->shi <= e->shi) setS(e->a->slo, e->a->shi);
        break;
      case ITE: {
        i64 sl = std::min(e->b->slo, e->d->slo), sh = std::max(e->b->shi, e->d->shi);
        u64 ul = std::min(e->b->ulo, e->d->ulo), uh = std::max(e->b->uhi, e->d->uhi);
        e->slo = sl; e->shi = sh; e->ulo = ul; e->uhi = uh; break; }
      case CONCAT: setU((e->a->ulo << e->b->w) | e->b->ulo, (e->a->uhi << e->b->w) | e->b->uhi); break;
      default: break;
    }
  }

  // ---------- constructors with simplification ----------
  Expr* C(u64 v, int w) { return raw(CONST, w, v & maskw(w)); }
  Expr* DC(double d) { return raw(DCONST, 0, bitsD(d)); }
  Expr* DCb(u64 b) { return raw(DCONST, 0, b); }
  Expr* T() { return C(1, 1); }
  Expr* F() { return C(0, 1); }
  static bool isC(Expr* e) { return e->op == CONST; }
  static bool isDC(Expr* e) { return e->op == DCONST; }

  int getSym(const std::string& name, bool isD, int w) {
    auto it = symByName.find(name);
    if (it != symByName.end()) return it->second;
    SymInfo s; s.name = name; s.isD = isD; s.width = w;
    syms.push_back(s);
    symByName[name] = syms.size() - 1;
    return syms.size() - 1;
  }
  Expr* sym(int id) { return syms[id].isD ? raw(DSYM, 0, id) : raw(SYM, syms[id].width, id); }

  static u64 foldBV(Op op, u64 a, u64 b, int w, bool& ok) {
    ok = true; u64 M = maskw(w); a &= M; b &= M;
    switch (op) {
      case ADD: return (a + b) & M; case SUB: return (a - b) & M; case MUL: return (a * b) & M;
      case UDIV: if (!b) { ok = false; return 0; } return a / b;
      case UREM: if (!b) { ok = false; return 0; } return a % b;
      case SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y || (y == -1 && x == INT64_MIN)) { ok = false; return 0; } return (u64)(x / y) & M; }
      case SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) { ok = false; return 0; } if (y == -1) return 0; return (u64)(x % y) & M; }
      case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
      case SHL: return b >= (u64)w ? 0 : (a << b) & M;
      case LSHR: return b >= (u64)w ? 0 : a >> b;
      case ASHR: return b >= (u64)w ? (sx(a, w) < 0 ? M : 0) : (u64)(sx(a, w) >> b) & M;
      case EQ: return a == b; case ULT: return a < b; case ULE: return a <= b;
      case SLT: return sx(a, w) < sx(b, w); case SLE: return sx(a, w) <= sx(b, w);
      default: ok = false; return 0;
    }
  }

  Expr* bin(Op op, Expr* a, Expr* b) {
    int w = a->w;
    bool cmp = op >= EQ && op <= SLE;
    if (isC(a) && isC(b)) { bool ok; u64 r = foldBV(op, a->c, b->c, w, ok); if (ok) return C(r, cmp ? 1 : w); }
    if (cmp) return cmpE(op, a, b);
    bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR;
    if (comm && (isC(b) ? false : (isC(a) || a->id > b->id))) std::swap(a, b);  // const on right
    if (isC(b)) {
      u64 k = b->c;
      switch (op) {
        case ADD: if (!k) return a; if (a->op == ADD && isC(a->b)) return bin(ADD, a->a, C(a->b->c + k, w)); break;
        case SUB: return bin(ADD, a, C(-k, w));
        case MUL: if (k == 1) return a; if (!k) return b; break;
        case AND: if (!k) return b; if (k == maskw(w)) return a;
          // mask of low bits covering range
          if ((k & (k + 1)) == 0 && a->uhi <= k) return a; break;
        case OR: if (!k) return a; if (k == maskw(w)) return b; break;
        case XOR: if (!k) return a; if (a->op == XOR && isC(a->b)) return bin(XOR, a->a, C(a->b->c ^ k, w));
          if (w == 1 && k == 1) return notE(a); break;
        case SHL: case LSHR: case ASHR: if (!k) return a;
          if (k >= (u64)w && op != ASHR) return C(0, w);
          if (op == LSHR && a->uhi < (1ull << k)) return C(0, w);
          break;
        case UDIV: case SDIV: if (k == 1) return a; break;
        default: break;
      }
    }
    if (a == b) {
      if (op == SUB || op == XOR) return C(0, w);
      if (op == AND || op == OR) return a;
    }
    if (w == 1) {  // boolean
      if (op == AND && ((a->op == XOR && a->a == b) || (b->op == XOR && b->a == a && isC(b->b)))) return F();
      if (op == OR && ((a->op == XOR && a->a == b) || (b->op == XOR && b->a == a && isC(b->b)))) return T();
    }
    if (op == SUB && b->op == ADD && b->a == a) return bin(SUB, C(0, w), b->b);
    if (op == SUB && a->op == ADD && a->a == b) return a->b;
    return raw(op, w, 0, a, b);
  }

  Expr* notE(Expr* a) {
    if (isC(a)) return C(!a->c, 1);
    if (a->op == XOR && isC(a->b)) return a->a;
    if (a->op == ULT) return bin(ULE, a->b, a->a);
    if (a->op == ULE) return bin(ULT, a->b, a->a);
    if (a->op == SLT) return bin(SLE, a->b, a->a);
    if (a->op == SLE) return bin(SLT, a->b, a->a);
    if (!fpMode && a->op == DLT) return dcmp(DLE, a->b, a->a);
    if (!fpMode && a->op == DLE) return dcmp(DLT, a->b, a->a);
    return raw(XOR, 1, 0, a, C(1, 1));
  }
  Expr* andE(Expr* a, Expr* b) { return bin(AND, a, b); }
  Expr* orE(Expr* a, Expr* b) { return bin(OR, a, b); }

  Expr* cmpE(Op op, Expr* a, Expr* b) {
    int w = a->w;
    if (a == b) return C(op == EQ || op == ULE || op == SLE, 1);
    switch (op) {
      case EQ:
        if (a->uhi < b->ulo || b->uhi < a->ulo) return F();
        if (a->shi < b->slo || b->shi < a->slo) return F();
        break;
      case ULT: if (a->uhi < b->ulo) return T(); if (a->ulo >= b->uhi) return F(); break;
      case ULE: if (a->uhi <= b->ulo) return T(); if (a->ulo > b->uhi) return F(); break;
      case SLT: if (a->shi < b->slo) return T(); if (a->slo >= b->shi) return F(); break;
      case SLE: if (a->shi <= b->slo) return T(); if (a->slo > b->shi) return F(); break;
      default: break;
    }
    if (op == EQ) {
      if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        if (w == 1) return b->c ? a : notE(a);
        if (a->op == ADD && isC(a->b)) return bin(EQ, a->a, C(b->c - a->b->c, w));
        if (a->op == ZEXT) return (b->c & ~maskw(a->a->w)) ? F() : bin(EQ, a->a, C(b->c, a->a->w));
        if (a->op == SEXT) { u64 t = b->c & maskw(a->a->w); return ((u64)sx(t, a->a->w) & maskw(w)) == b->c ? bin(EQ, a->a, C(t, a->a->w)) : F(); }
        if (a->op == ITE) {
          if (isC(a->b) && isC(a->d)) {
            bool t = a->b->c == b->c, f = a->d->c == b->c;
            if (t && f) return T(); if (!t && !f) return F();
            return t ? a->a : notE(a->a);
          }
          if (isC(a->b) && a->b->c != b->c) return andE(notE(a->a), bin(EQ, a->d, b));
          if (isC(a->d) && a->d->c != b->c) return andE(a->a, bin(EQ, a->b, b));
          if (isC(a->b)) return orE(a->a, bin(EQ, a->d, b));
          if (isC(a->d)) return orE(notE(a->a), bin(EQ, a->b, b));
        }
        if (a->op == SUB) return bin(EQ, a->a, bin(ADD, a->b, b));
        if (a->op == XOR && isC(a->b)) return bin(EQ, a->a, C(a->b->c ^ b->c, w));
      }
      if (a->op == D2BITS && isC(b) && !fpMode) return dcmp(DEQ, a->a, DCb(b->c));
      if (a->op == D2BITS && b->op == D2BITS && !fpMode) return dcmp(DEQ, a->a, b->a);
      if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return bin(EQ, a->a, b->a);
      if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return bin(EQ, a->a, b->a);
      if (a->id > b->id && !isC(b)) std::swap(a, b);
      return raw(EQ, 1, 0, a, b);
    }
    // order comparisons: narrow extensions
    if ((a->op == ZEXT) && (isC(b)) && (op == ULT || op == ULE || ((op == SLT || op == SLE) && sx(b->c, w) >= 0)) && b->c <= maskw(a->a->w))
      return bin(op == SLT ? ULT : op == SLE ? ULE : op, a->a, C(b->c, a->a->w));
    if ((b->op == ZEXT) && (isC(a)) && (op == ULT || op == ULE || ((op == SLT || op == SLE) && sx(a->c, w) >= 0)) && a->c <= maskw(b->a->w))
      return bin(op == SLT ? ULT : op == SLE ? ULE : op, C(a->c, b->a->w), b->a);
    if (op == ULE && isC(b)) { /* a<=k */ if (b->c == 0) return bin(EQ, a, b); }
    if (op == ULT && isC(b) && b->c == 1) return bin(EQ, a, C(0, w));
    // (x + k) <u m with signed-range knowledge: x+k nonnegative -> drop
    if (a->op == ITE && isC(a->b) && isC(a->d) && isC(b)) {
      bool ok; u64 t = foldBV(op, a->b->c, b->c, w, ok), f = foldBV(op, a->d->c, b->c, w, ok);
      if (t && f) return T(); if (!t && !f) return F();
      return t ? a->a : notE(a->a);
    }
    if (a->op == ITE && isC(b) && (isC(a->b) || isC(a->d))) return ite(a->a, bin(op, a->b, b), bin(op, a->d, b));
    if (b->op == ITE && isC(a) && (isC(b->b) || isC(b->d)) && !(isC(b->b) && isC(b->d))) return ite(b->a, bin(op, a, b->b), bin(op, a, b->d));
    if (b->op == ITE && isC(b->b) && isC(b->d) && isC(a)) {
      bool ok; u64 t = foldBV(op, a->c, b->b->c, w, ok), f = foldBV(op, a->c, b->d->c, w, ok);
      if (t && f) return T(); if (!t && !f) return F();
      return t ? b->a : notE(b->a);
    }
    return raw(op, 1, 0, a, b);
  }

  Expr* ite(Expr* c, Expr* t, Expr* f) {
    if (isC(c)) return c->c ? t : f;
    if (t == f) return t;
    if (t->w == 0) return raw(DITE, 0, 0, c, t, f);
    if (t->w == 1) {
      if (isC(t) && isC(f)) return t->c ? c : notE(c);
      if (isC(t)) return t->c ? orE(c, f) : andE(notE(c), f);
      if (isC(f)) return f->c ? orE(notE(c), t) : andE(c, t);
    }
    if (c->op == XOR && isC(c->b)) return ite(c->a, f, t);
    if (t->op == ITE && t->a == c) t = t->b;
    if (f->op == ITE && f->a == c) f = f->d;
    if (t == f) return t;
    return raw(ITE, t->w, 0, c, t, f);
  }
  Expr* extract(Expr* a, int lo, int w) {
    if (lo == 0 && w == a->w) return a;
    switch (a->op) {
      case CONST: return C(a->c >> lo, w);
      case EXTRACT: return extract(a->a, lo + a->c, w);
      case CONCAT:
        if (lo + w <= a->b->w) return extract(a->b, lo, w);
        if (lo >= a->b->w) return extract(a->a, lo - a->b->w, w);
        break;
      case ZEXT:
        if (lo >= a->a->w) return C(0, w);
        if (lo + w <= a->a->w) return extract(a->a, lo, w);
        if (lo == 0) return zext(a->a, w);
        break;
      case SEXT:
        if (lo + w <= a->a->w) return extract(a->a, lo, w);
        if (lo == 0 && w > a->a->w) return sext(a->a, w);
        break;
      case ITE:
        if (isC(a->b) || isC(a->d)) return ite(a->a, extract(a->b, lo, w), extract(a->d, lo, w));
        break;
      case AND: case OR: case XOR:
        if (isC(a->b)) return bin(a->op, extract(a->a, lo, w), extract(a->b, lo, w));
        break;
      case ADD: case SUB: case MUL:
        if (lo == 0 && a->uhi > maskw(w)) return bin(a->op, extract(a->a, 0, w), extract(a->b, 0, w));
        break;
      default: break;
    }
    if (lo > 0 && a->uhi < (1ull << lo)) return C(0, w);
    return raw(EXTRACT, w, lo, a);
  }
  Expr* zext(Expr* a, int w) {
    if (a->w == w) return a;
    if (isC(a)) return C(a->c, w);
    if (a->op == ZEXT) return zext(a->a, w);
    if (a->op == ITE && isC(a->b) && isC(a->d)) return ite(a->a, zext(a->b, w), zext(a->d, w));
    if (a->op == EXTRACT && a->c == 0 && a->a->w == w && a->a->uhi <= maskw(a->w)) return a->a;
    return raw(ZEXT, w, 0, a);
  }
  Expr* sext(Expr* a, int w) {
    if (a->w == w) return a;
    if (isC(a)) return C((u64)sx(a->c, a->w), w);
    if (a->op == SEXT) return sext(a->a, w);
    if (a->op == ZEXT) return zext(a->a, w);
    if (a->w > 1 && a->slo >= 0) return zext(a, w);
    if (a->op == EXTRACT && a->c == 0 && a->a->w == w && a->a->slo == a->slo && a->a->shi == a->shi) return a->a;
    if (a->op == ITE && isC(a->b) && isC(a->d)) return ite(a->a, sext(a->b, w), sext(a->d, w));
    return raw(SEXT, w, 0, a);
  }
  Expr* concat(Expr* hi, Expr* lo) {
    int w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return C((hi->c << lo->w) | lo->c, w);
    if (isC(hi) && hi->c == 0) return zext(lo, w);
    // adjacent extracts
    Expr* hx = hi; Expr* lx = lo;
    int hl = 0, ll = 0;
    if (hx->op == EXTRACT) { hl = hx->c; hx = hx->a; }
    if (lx->op == EXTRACT) { ll = lx->c; lx = lx->a; }
    if (hx == lx && hl == ll + lo->w) return extract(hx, ll, w);
    if (hi->op == EXTRACT && hl >= lo->w && extract(hx, hl - lo->w, lo->w) == lo) return extract(hx, hl - lo->w, w);
    if (lo->op == CONCAT) {  // hi . (m . l)
      Expr* m = concat(hi, lo->a);
      if (m->op != CONCAT) return concat(m, lo->b);
    }
    // zext hi part: extract(zext(x)) cases
    if (hi->op == CONST && lo->op == ZEXT && hi->c == 0) return zext(lo->a, w);
    return raw(CONCAT, w, 0, hi, lo);
  }

  // ----- doubles -----
  Expr* d2bits(Expr* d) {
    if (isDC(d)) return C(d->c, 64);
    if (d->op == BITS2D) return d->a;
    if (d->op == DITE && isDC(d->b) && isDC(d->d)) return raw(ITE, 64, 0, d->a, C(d->b->c, 64), C(d->d->c, 64));
    return raw(D2BITS, 64, 0, d);
  }
  Expr* bits2d(Expr* b) {
    if (isC(b)) return DCb(b->c);
    if (b->op == D2BITS) return b->a;
    if (b->op == ITE) return ite(b->a, bits2d(b->b), bits2d(b->d));
    return raw(BITS2D, 0, 0, b);
  }
  static double foldD(Op op, double a, double b) {
    switch (op) {
      case DADD: return a + b; case DSUB: return a - b; case DMUL: return a * b; case DDIV: return a / b;
      case DPOW: return pow(a, b);
      default: return 0;
    }
  }
  Expr* dbin(Op op, Expr* a, Expr* b) {
    if (isDC(a) && isDC(b)) return DC(foldD(op, asD(a->c), asD(b->c)));
    if (!fpMode) {
      for (Expr* x : {a, b}) if (isDC(x) && !std::isfinite(asD(x->c))) throw Unsupported("non-finite constant mixed with symbolic real");
      double bv = isDC(b) ? asD(b->c) : NAN, av = isDC(a) ? asD(a->c) : NAN;
      switch (op) {
        case DADD: if (bv == 0) return a; if (av == 0) return b; if (a->id > b->id) std::swap(a, b); break;
        case DSUB: if (bv == 0) return a; if (a == b) return DC(0); break;
        case DMUL: for (int i = 0; i < 2; i++) { Expr *k = i ? b : a, *y = i ? a : b; if (isDC(k) && asD(k->c) != 0 && y->op == DDIV && isDC(y->b) && y->b->c == k->c) return y->a; }
          if (bv == 1) return a; if (av == 1) return b; if (bv == 0 || av == 0) return DC(0); if (a->id > b->id) std::swap(a, b); break;
        case DDIV: if (bv == 1) return a;
          if (isDC(b) && bv != 0 && a->op == DMUL) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
          break;
        case DPOW: if (bv == 2) return dbin(DMUL, a, a); if (bv == 1) return a; if (bv == 3) return dbin(DMUL, a, dbin(DMUL, a, a)); if (bv == 0) return DC(1); break;
        default: break;
      }
      // push constant op through DITE with constant arms
      if (isDC(b) && a->op == DITE && isDC(a->b) && isDC(a->d)) return ite(a->a, dbin(op, a->b, b), dbin(op, a->d, b));
      if (isDC(a) && b->op == DITE && isDC(b->b) && isDC(b->d)) return ite(b->a, dbin(op, a, b->b), dbin(op, a, b->d));
    } else {
      if (op == DPOW && isDC(b) && asD(b->c) == 2) return dbin(DMUL, a, a);
      if (isDC(b) && asD(b->c) == 1 && (op == DMUL || op == DDIV)) return a;
      if (isDC(a) && asD(a->c) == 1 && op == DMUL) return b;
    }
    return raw(op, 0, 0, a, b);
  }
  Expr* dneg(Expr* a) {
    if (isDC(a)) return DC(-asD(a->c));
    if (a->op == DNEG) return a->a;
    return raw(DNEG, 0, 0, a);
  }
  bool isIntegral(Expr* e) {
    if (isDC(e)) { double v = asD(e->c); return std::fabs(v) < 1e15 && v == std::floor(v); }
    switch (e->op) {
      case DFROMS: case DFROMU: case DFLOOR: return true;
      case DADD: case DSUB: case DMUL: return isIntegral(e->a) && isIntegral(e->b);
      case DNEG: return isIntegral(e->a);
      case DITE: return isIntegral(e->b) && isIntegral(e->d);
      default: return false;
    }
  }
  // splits a sum into its integer valued terms (an expression) and the interval of the others
  void splitInt(Expr* e, bool neg, Expr*& ints, double& lo, double& hi) {
    if (isIntegral(e)) { ints = ints ? dbin(neg ? DSUB : DADD, ints, e) : neg ? dneg(e) : e; return; }
    if (e->op == DADD) { splitInt(e->a, neg, ints, lo, hi); splitInt(e->b, neg, ints, lo, hi); return; }
    if (e->op == DSUB) { splitInt(e->a, neg, ints, lo, hi); splitInt(e->b, !neg, ints, lo, hi); return; }
    if (e->op == DNEG) { splitInt(e->a, !neg, ints, lo, hi); return; }
    double l = -INFINITY, h = INFINITY; drange(e, l, h);
    if (neg) { std::swap(l, h); l = -l; h = -h; }
    lo += l; hi += h;
  }
  Expr* dfmt(uint64_t how, Expr* a) {
    // printing with enough decimals is exact
    if (!fpMode && how >> 8 == 1) {
      double p = 1; for (int i = 0; i < (int)(how & 255) && i < 18; i++) p *= 10;
      if (isIntegral(a)) return a;
      if (a->op == DDIV && isIntegral(a->a) && isDC(a->b)) { double k = asD(a->b->c); if (k >= 1 && k <= p && p / k == std::floor(p / k) && (k == 1 || std::fmod(k, 10) == 0)) return a; }
    }
    return raw(DFMT, 0, how, a);
  }
  Expr* dfloor(Expr* a) {
    if (isDC(a)) return DC(std::floor(asD(a->c)));
    if (!fpMode && isIntegral(a)) return a;
    if (!fpMode) {
      Expr* ints = nullptr; double lo = 0, hi = 0;
      splitInt(a, false, ints, lo, hi);
      lo -= 1e-12; hi += 1e-12;
      if (ints && std::isfinite(lo) && std::isfinite(hi) && std::floor(lo) == std::floor(hi)) return dbin(DADD, ints, DC(std::floor(lo)));
    }
    return raw(DFLOOR, 0, 0, a);
  }
  Expr* dcmp(Op op, Expr* a, Expr* b) {
    if (isDC(a) && isDC(b)) {
      double x = asD(a->c), y = asD(b->c);
      return C(op == DEQ ? x == y : op == DLT ? x < y : x <= y, 1);
    }
    if (!fpMode) {
      if (a == b) return C(op != DLT, 1);
      if (isDC(b)) { double y = asD(b->c); if (std::isnan(y)) return F(); if (std::isinf(y)) return C(op == DEQ ? 0 : y > 0, 1); }
      if (isDC(a)) { double x = asD(a->c); if (std::isnan(x)) return F(); if (std::isinf(x)) return C(op == DEQ ? 0 : x < 0, 1); }
      // interval knowledge
      double al, ah, bl, bh;
      if (drange(a, al, ah) && drange(b, bl, bh)) {
        if (op == DLT) { if (ah < bl) return T(); if (al >= bh) return F(); }
        if (op == DLE) { if (ah <= bl) return T(); if (al > bh) return F(); }
        if (op == DEQ) { if (ah < bl || bh < al) return F(); }
      }
      if (op == DEQ && a->op == DDIV && b->op == DDIV && a->b == b->b && isDC(a->b) && asD(a->b->c) != 0) return dcmp(op, a->a, b->a);
      if (op == DEQ && a->id > b->id) std::swap(a, b);
    }
    return raw(op, 1, 0, a, b);
  }
  // conservative interval for doubles in real mode
  std::unordered_map<Expr*, std::pair<double, double>> drcache;
  // base^e for a whole valued e of small range
  Expr* dpowInt(double base, Expr* e) {
    if (isDC(e)) return DC(pow(base, asD(e->c)));
    double lo, hi;
    if (!fpMode && isIntegral(e) && drange(e, lo, hi) && hi - lo < 64) {
      long l = std::lround(std::floor(lo + 1e-6)), h = std::lround(std::ceil(hi - 1e-6));
      Expr* r = DC(pow(base, (double)h));
      for (long i = h - 1; i >= l; i--) r = ite(dcmp(DLE, e, DC((double)i)), DC(pow(base, (double)i)), r);
      return r;
    }
    return dbin(DPOW, DC(base), e);
  }
  bool drange(Expr* e, double& lo, double& hi) {
    auto it = drcache.find(e);
    if (it != drcache.end()) { lo = it->second.first; hi = it->second.second; return !(std::isinf(lo) && std::isinf(hi)); }
    double l = -INFINITY, h = INFINITY, al, ah, bl, bh;
    auto wid = [&]() { // outward rounding
      if (std::isfinite(l)) l -= std::fabs(l) * 1e-12; if (std::isfinite(h)) h += std::fabs(h) * 1e-12; };
    switch (e->op) {
      case DCONST: l = h = asD(e->c); break;
      case DSYM: { auto& s = syms[e->c]; if (s.dranged) { l = s.dlo; h = s.dhi; } break; }
      case DFROMS: l = (double)e->a->slo; h = (double)e->a->shi; break;
      case DFROMU: l = (double)e->a->ulo; h = (double)e->a->uhi; break;
      case DADD: if (drange(e->a, al, ah) && drange(e->b, bl, bh)) { l = al + bl; h = ah + bh; wid(); } break;
      case DSUB: if (drange(e->a, al, ah) && drange(e->b, bl, bh)) { l = al - bh; h = ah - bl; wid(); } break;
      case DNEG: if (drange(e->a, al, ah)) { l = -ah; h = -al; } break;
      case DMUL: if (e->a == e->b && drange(e->a, al, ah) && std::isfinite(al) && std::isfinite(ah)) { l = al <= 0 && ah >= 0 ? 0 : std::min(al * al, ah * ah); h = std::max(al * al, ah * ah); wid(); break; }
        if (drange(e->a, al, ah) && drange(e->b, bl, bh) && std::isfinite(al) && std::isfinite(ah) && std::isfinite(bl) && std::isfinite(bh)) {
          double p[4] = {al * bl, al * bh, ah * bl, ah * bh}; l = *std::min_element(p, p + 4); h = *std::max_element(p, p + 4); wid(); } break;
      case DDIV: if (isDC(e->b) && asD(e->b->c) != 0 && drange(e->a, al, ah) && std::isfinite(al) && std::isfinite(ah)) { double k = asD(e->b->c); l = std::min(al / k, ah / k); h = std::max(al / k, ah / k); wid(); } break;
      case DITE: if (drange(e->b, al, ah) && drange(e->d, bl, bh)) { l = std::min(al, bl); h = std::max(ah, bh); } break;
      case DFLOOR: if (drange(e->a, al, ah)) { l = std::floor(al) ; h = std::floor(ah); } break;
      default: break;
    }
    if (std::isnan(l)) l = -INFINITY; if (std::isnan(h)) h = INFINITY;
    drcache[e] = {l, h};
    lo = l; hi = h;
    return !(std::isinf(l) && std::isinf(h));
  }
  Expr* disnan(Expr* a) {
    if (isDC(a)) return C(std::isnan(asD(a->c)), 1);
    if (!fpMode) return F();
    return raw(DISNAN, 1, 0, a);
  }
  Expr* dfroms(Expr* a) {
    if (isC(a)) return DC((double)sx(a->c, a->w));
    if (a->op == ZEXT) return dfromu(a->a);
    if (a->op == SEXT) return dfroms(a->a);
    if (a->slo >= 0 && a->w > 1 && (a->op == SYM)) return dfromu(a);
    if (!fpMode) {
      if (a->op == ADD && a->slo == a->slo) {
        __int128 lo = (__int128)a->a->slo + a->b->slo, hi = (__int128)a->a->shi + a->b->shi;
        if (lo == a->slo && hi == a->shi) return dbin(DADD, dfroms(a->a), dfroms(a->b));
      }
      if (a->op == SUB) {
        __int128 lo = (__int128)a->a->slo - a->b->shi, hi = (__int128)a->a->shi - a->b->slo;
        if (lo == a->slo && hi == a->shi) return dbin(DSUB, dfroms(a->a), dfroms(a->b));
      }
      if (a->op == MUL && a->ulo <= a->uhi && a->slo >= 0 && isC(a->b) && a->a->slo >= 0) {
        unsigned __int128 h = (unsigned __int128)a->a->uhi * a->b->uhi;
        if (h <= (maskw(a->w) >> 1)) return dbin(DMUL, dfroms(a->a), dfroms(a->b));
      }
      if (a->op == MUL && isC(a->b)) {
        __int128 x = (__int128)a->a->slo * sx(a->b->c, a->w), y = (__int128)a->a->shi * sx(a->b->c, a->w);
        if (x > y) std::swap(x, y);
        if (x == a->slo && y == a->shi) return dbin(DMUL, dfroms(a->a), dfroms(a->b));
      }
      if (a->op == ITE) return ite(a->a, dfroms(a->b), dfroms(a->d));
    }
    return raw(DFROMS, 0, 0, a);
  }
  Expr* dfromu(Expr* a) {
    if (isC(a)) return DC((double)a->c);
    if (a->op == ZEXT) return dfromu(a->a);
    if (a->w > 1 && a->slo >= 0 && a->op != SYM) return dfroms(a);
    if (a->w == 1 && !fpMode) return ite(a, DC(1), DC(0));
    if (a->op == ITE && !fpMode) return ite(a->a, dfromu(a->b), dfromu(a->d));
    return raw(DFROMU, 0, 0, a);
  }

  // ---------- substitution of symbols by constants ----------
  Expr* rebuild(Expr* e, Expr* a, Expr* b, Expr* d) {
    switch (e->op) {
      case CONST: case SYM: case DCONST: case DSYM: return e;
      case ITE: case DITE: return ite(a, b, d);
      case CONCAT: return concat(a, b);
      case EXTRACT: return extract(a, e->c, e->w);
      case ZEXT: return zext(a, e->w);
      case SEXT: return sext(a, e->w);
      case DADD: case DSUB: case DMUL: case DDIV: case DPOW: return dbin(e->op, a, b);
      case DNEG: return dneg(a);
      case DFLOOR: return dfloor(a);
      case DFROMS: return dfroms(a);
      case DFROMU: return dfromu(a);
      case BITS2D: return bits2d(a);
      case D2BITS: return d2bits(a);
      case DEQ: case DLT: case DLE: return dcmp(e->op, a, b);
      case DISNAN: return disnan(a);
      case DROUNDE: case DSQRT: case DFMT: case D2S:
        return raw(e->op, e->w, e->c, a, b, d);
      default: return bin(e->op, a, b);
    }
  }
  Expr* subst(Expr* e, const std::map<int, Expr*>& m, std::unordered_map<Expr*, Expr*>& memo) {
    if (e->syms->empty()) return e;
    bool hit = false;
    for (int s : *e->syms) if (m.count(s)) { hit = true; break; }
    if (!hit) return e;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    Expr* r;
    if (e->op == SYM || e->op == DSYM) r = m.at(e->c);
    else {
      Expr* a = e->a ? subst(e->a, m, memo) : nullptr;
      Expr* b = e->b ? subst(e->b, m, memo) : nullptr;
      Expr* d = e->d ? subst(e->d, m, memo) : nullptr;
      r = (a == e->a && b == e->b && d == e->d) ? e : rebuild(e, a, b, d);
    }
    memo[e] = r;
    return r;
  }

  // ---------- concrete evaluation ----------
  static double fmtCanon(u64 spec, double x);
  u64 defaultVal(int s) {
    auto& si = syms[s];
    if (si.isD) return bitsD(si.dranged ? std::max(si.dlo, std::min(si.dhi, 0.0)) : 0.0);
    if (!si.ranged) return 0;
    i64 v = si.lo > 0 ? si.lo : (si.hi < 0 ? si.hi : 0);
    return (u64)v & maskw(si.width);
  }
  u64 evalRec(Expr* e, const Model& m) {
    if (e->evEpoch == epoch) return e->evVal;
    u64 r = 0;
    auto A = [&]() { return evalRec(e->a, m); };
    auto B = [&]() { return evalRec(e->b, m); };
    switch (e->op) {
      case CONST: case DCONST: return e->c;
      case SYM: case DSYM: { bool ok; r = m.get(e->c, ok); if (!ok) r = defaultVal(e->c); break; }
      case ITE: case DITE: r = (A() & 1) ? B() : evalRec(e->d, m); break;
      case CONCAT: r = (A() << e->b->w) | B(); break;
      case EXTRACT: r = (A() >> e->c) & maskw(e->w); break;
      case ZEXT: r = A(); break;
      case SEXT: r = (u64)sx(A(), e->a->w) & maskw(e->w); break;
      case DADD: case DSUB: case DMUL: case DDIV: case DPOW: r = bitsD(foldD(e->op, asD(A()), asD(B()))); break;
      case DNEG: r = bitsD(-asD(A())); break;
      case DFLOOR: r = bitsD(std::floor(asD(A()))); break;
      case DROUNDE: r = bitsD(e->c ? std::round(asD(A())) : std::nearbyint(asD(A()))); break;
      case DSQRT: r = bitsD(std::sqrt(asD(A()))); break;
      case DFROMS: r = bitsD((double)sx(A(), e->a->w)); break;
      case DFROMU: r = bitsD((double)A()); break;
      case DFMT: r = bitsD(fmtCanon(e->c, asD(A()))); break;
      case BITS2D: r = A(); break;
      case D2BITS: r = A(); break;
      case DEQ: case DLT: case DLE: {
        double x = asD(A()), y = asD(B());
        if (!fpMode && !(std::fabs(x - y) > 1e-7 * (std::fabs(x) + std::fabs(y)))) uncertain = true;
        r = e->op == DEQ ? x == y : e->op == DLT ? x < y : x <= y; break; }
      case DISNAN: r = std::isnan(asD(A())); break;
      case D2S: { double x = asD(A()); r = std::isfinite(x) && std::fabs(x) < 9e18 ? (u64)(i64)x & maskw(e->w) : 0; break; }
      case UDIV: case UREM: case SDIV: case SREM: { bool ok; r = foldBV(e->op, A(), B(), e->a->w, ok); break; }
      default: { bool ok; r = foldBV(e->op, A(), B(), e->a->w, ok); break; }
    }
    e->evEpoch = epoch; e->evVal = r;
    return r;
  }
  bool uncertain = false;  // a real comparison was too close to trust double arithmetic
  u64 eval(Expr* e, const Model& m) { ++epoch; uncertain = false; return evalRec(e, m); }

  std::string str(Expr* e, int depth = 6) {
    static const char* n[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext",
      "dconst","dsym","d+","d-","d*","d/","dneg","dfloor","drounde","dsqrt","dpow","dite","dfroms","dfromu","dfmt","bits2d","d2bits","deq","dlt","dle","disnan","d2s"};
    if (e->op == CONST) return std::to_string(sx(e->c, e->w)) + ":" + std::to_string(e->w);
    if (e->op == DCONST) { char b[40]; snprintf(b, 40, "%.17g", asD(e->c)); return b; }
    if (e->op == SYM || e->op == DSYM) return syms[e->c].name;
    if (depth == 0) return "...";
    std::string s = std::string("(") + n[e->op];
    if (e->op == EXTRACT) s += "@" + std::to_string(e->c) + ":" + std::to_string(e->w);
    for (Expr* x : {e->a, e->b, e->d}) if (x) s += " " + str(x, depth - 1);
    return s + ")";
  }
};

// canonical number denoted by the printed form of x; spec = kind(0:%g,1:%f,2:%e)<<8 | precision
inline double Ctx::fmtCanon(u64 spec, double x) {
  char buf[512];
  int kind = spec >> 8, prec = spec & 255;
  snprintf(buf, sizeof buf, kind == 0 ? "%.*g" : kind == 1 ? "%.*f" : "%.*e", prec, x);
  double v = strtod(buf, nullptr);
  if (v == 0 && buf[0] == '-') return -1e-30;  // "-0" is a different string from "0"
  return v;
}

enum Res { SAT, UNSAT, UNKNOWN };

struct Solver {
  Ctx& C;
  z3::context z;
  std::vector<std::unique_ptr<z3::expr>> memo;
  std::unordered_map<uint32_t, size_t> memoIdx;
  u64 nQueries = 0, nCacheHits = 0, nSat = 0, nUnsat = 0, nUnknown = 0;
  double solverTime = 0;
  unsigned timeoutMs = 30000;
  std::map<std::vector<uint32_t>, std::pair<Res, std::shared_ptr<Model>>> cache;
  // per-query bookkeeping
  std::set<int> usedBV, usedInt, usedD;
  bool approx = false;
  Solver(Ctx& c) : C(c) {}

  z3::expr symBV(int s) { usedBV.insert(s); return z.bv_const(("b_" + std::to_string(s)).c_str(), C.syms[s].width); }
  z3::expr symInt(int s) { usedInt.insert(s); return z.int_const(("i_" + std::to_string(s)).c_str()); }
  z3::expr symReal(int s) { usedD.insert(s); return z.real_const(("r_" + std::to_string(s)).c_str()); }
  z3::sort fps() { return z.fpa_sort(11, 53); }
  z3::expr rm() { return z3::expr(z, Z3_mk_fpa_rne(z)); }
  z3::expr ratConst(double d) {
    if (!std::isfinite(d)) throw Unsupported("non-finite real constant");
    if (d == 0) return z.real_val(0);
    { char b[40]; snprintf(b, sizeof b, "%.15g", d);  // short decimals mean themselves
      if (strtod(b, nullptr) == d && fabs(d) < 1e15 && fabs(d) > 1e-15) {
        snprintf(b, sizeof b, "%.15g", d);
        std::string t(b); size_t e = t.find('e'); int x = 0; if (e != std::string::npos) { x = atoi(t.c_str() + e + 1); t = t.substr(0, e); }
        bool neg = t[0] == '-'; if (neg) t = t.substr(1);
        size_t dot = t.find('.'); if (dot != std::string::npos) { x -= t.size() - dot - 1; t.erase(dot, 1); }
        std::string den = "1"; for (; x > 0; x--) t += '0'; for (; x < 0; x++) den += '0';
        return z.real_val(((neg ? "-" : "") + t + "/" + den).c_str());
      } }
    int ex; double m = frexp(d, &ex);
    i64 mant = (i64)ldexp(m, 53); ex -= 53;
    while (!(mant & 1)) { mant >>= 1; ex++; }
    z3::expr r = z.real_val((int64_t)mant);
    std::string p = "1";
    if (ex != 0) {
      // 2^|ex| as decimal string
      std::vector<int> dg{1};
      for (int i = 0; i < std::abs(ex); i++) { int c = 0; for (auto& x : dg) { x = x * 2 + c; c = x / 10; x %= 10; } if (c) dg.push_back(c); }
      p.clear(); for (int i = dg.size() - 1; i >= 0; i--) p += char('0' + dg[i]);
      if (ex > 0) r = z.real_val((std::to_string(mant)).c_str()) * z.real_val(p.c_str());
      else r = z.real_val((std::to_string(mant) + "/" + p).c_str());
    }
    return r.simplify();
  }
  static std::string pow10s(int k) { return "1" + std::string(k, '0'); }

  std::unordered_map<uint32_t, z3::expr> tm;  // translation memo (whole run)
  std::unordered_map<uint32_t, std::vector<int>> tmUse;

  z3::expr B(const z3::expr& e) { return e; }
  // booleans (w==1) are translated to z3 Bool
  z3::expr tr(Expr* e) {
    auto it = tm.find(e->id);
    if (it != tm.end()) return it->second;
    z3::expr r = trRaw(e);
    tm.insert({e->id, r});
    return r;
  }
  z3::expr bvbool(Expr* e) { return tr(e); }
  z3::expr asBV(Expr* e) {  // bool -> bv1 where a bit-vector is required
    z3::expr x = tr(e);
    if (e->w == 1) return z3::ite(x, z.bv_val(1, 1), z.bv_val(0, 1));
    return x;
  }
  z3::expr floorR(z3::expr x) { return z3::to_real(z3::expr(z, Z3_mk_real2int(z, x))); }
  z3::expr rhaInt(z3::expr x) {  // round half away from zero
    z3::expr half = z.real_val("1/2");
    return z3::ite(x >= 0, z3::expr(z, Z3_mk_real2int(z, x + half)), -z3::expr(z, Z3_mk_real2int(z, half - x)));
  }
  z3::expr rheInt(z3::expr x) {  // round half to even, real -> int
    z3::expr half = z.real_val("1/2");
    z3::expr f(z, Z3_mk_real2int(z, x + half));
    z3::expr tie = (z3::to_real(f) == x + half);
    z3::expr odd = (z3::mod(f, z.int_val(2)) != 0);
    return z3::ite(tie && odd, f - 1, f);
  }
  // whole-number valued real terms are compared as integers, which Z3 handles far better
  bool intTerm(Expr* e, int depth = 0) {
    switch (e->op) {
      case DFLOOR: return true;
      case DROUNDE: return true;
      case DFROMS: case DFROMU: return e->a->op == SYM;
      case DCONST: { double d = asD(e->c); return d == std::floor(d) && std::fabs(d) < 9e15; }
      case DNEG: return depth < 30 && intTerm(e->a, depth + 1);
      case DADD: case DSUB: return depth < 30 && intTerm(e->a, depth + 1) && intTerm(e->b, depth + 1);
      default: return false;
    }
  }
  z3::expr trInt(Expr* e) {
    switch (e->op) {
      case DFLOOR: return z3::expr(z, Z3_mk_real2int(z, tr(e->a)));
      case DROUNDE: return e->c ? rhaInt(tr(e->a)) : rheInt(tr(e->a));
      case DFROMS: case DFROMU: return symInt(e->a->c);
      case DCONST: return z.int_val((int64_t)asD(e->c));
      case DNEG: return -trInt(e->a);
      case DADD: return trInt(e->a) + trInt(e->b);
      case DSUB: return trInt(e->a) - trInt(e->b);
      default: throw Unsupported("integer term");
    }
  }
  z3::expr trRaw(Expr* e) {
    using namespace z3;
    int w = e->w;
    switch (e->op) {
      case CONST: if (w == 1) return z.bool_val(e->c != 0); return z.bv_val((uint64_t)e->c, w);
      case SYM: { z3::expr x = symBV(e->c); if (w == 1) return x == z.bv_val(1, 1); return x; }
      case ADD: if (w == 1) return tr(e->a) != tr(e->b); return tr(e->a) + tr(e->b);
      case SUB: if (w == 1) return tr(e->a) != tr(e->b); return tr(e->a) - tr(e->b);
      case MUL: if (w == 1) return tr(e->a) && tr(e->b); return tr(e->a) * tr(e->b);
      case UDIV: return udiv(tr(e->a), tr(e->b));
      case SDIV: return tr(e->a) / tr(e->b);
      case UREM: return urem(tr(e->a), tr(e->b));
      case SREM: return srem(tr(e->a), tr(e->b));
      case AND: if (w == 1) return tr(e->a) && tr(e->b); return tr(e->a) & tr(e->b);
      case OR: if (w == 1) return tr(e->a) || tr(e->b); return tr(e->a) | tr(e->b);
      case XOR: if (w == 1) { if (e->b->op == CONST && e->b->c == 1) return !tr(e->a); return tr(e->a) != tr(e->b); } return tr(e->a) ^ tr(e->b);
      case SHL: return shl(tr(e->a), tr(e->b));
      case LSHR: return lshr(tr(e->a), tr(e->b));
      case ASHR: return ashr(tr(e->a), tr(e->b));
      case EQ: return tr(e->a) == tr(e->b);
      case ULT: if (e->a->w == 1) return !tr(e->a) && tr(e->b); return ult(tr(e->a), tr(e->b));
      case ULE: if (e->a->w == 1) return !tr(e->a) || tr(e->b); return ule(tr(e->a), tr(e->b));
      case SLT: return slt(asBV(e->a), asBV(e->b));
      case SLE: return sle(asBV(e->a), asBV(e->b));
      case ITE: case DITE: return ite(tr(e->a), tr(e->b), tr(e->d));
      case CONCAT: return concat(asBV(e->a), asBV(e->b));
      case EXTRACT: { z3::expr x = tr(e->a).extract(e->c + w - 1, e->c); if (w == 1) return x == z.bv_val(1, 1); return x; }
      case ZEXT: return zext(asBV(e->a), w - e->a->w);
      case SEXT: return sext(asBV(e->a), w - e->a->w);
      default: break;
    }
    if (C.fpMode) {
      switch (e->op) {
        case DCONST: return z3::expr(z, Z3_mk_fpa_to_fp_bv(z, z.bv_val((uint64_t)e->c, 64), fps()));
        case DSYM: { usedD.insert(e->c); z3::expr b = z.bv_const(("f_" + std::to_string(e->c)).c_str(), 64); return z3::expr(z, Z3_mk_fpa_to_fp_bv(z, b, fps())); }
        case DADD: return z3::expr(z, Z3_mk_fpa_add(z, rm(), tr(e->a), tr(e->b)));
        case DSUB: return z3::expr(z, Z3_mk_fpa_sub(z, rm(), tr(e->a), tr(e->b)));
        case DMUL: return z3::expr(z, Z3_mk_fpa_mul(z, rm(), tr(e->a), tr(e->b)));
        case DDIV: return z3::expr(z, Z3_mk_fpa_div(z, rm(), tr(e->a), tr(e->b)));
        case DNEG: return z3::expr(z, Z3_mk_fpa_neg(z, tr(e->a)));
        case DFLOOR: return z3::expr(z, Z3_mk_fpa_round_to_integral(z, z3::expr(z, Z3_mk_fpa_rtn(z)), tr(e->a)));
        case DROUNDE: return z3::expr(z, Z3_mk_fpa_round_to_integral(z, e->c ? z3::expr(z, Z3_mk_fpa_rna(z)) : rm(), tr(e->a)));
        case DSQRT: return z3::expr(z, Z3_mk_fpa_sqrt(z, rm(), tr(e->a)));
        case DFROMS: return z3::expr(z, Z3_mk_fpa_to_fp_signed(z, rm(), asBV(e->a), fps()));
        case DFROMU: return z3::expr(z, Z3_mk_fpa_to_fp_unsigned(z, rm(), asBV(e->a), fps()));
        case BITS2D: return z3::expr(z, Z3_mk_fpa_to_fp_bv(z, tr(e->a), fps()));
        case D2BITS: if (e->a->op == DSYM) { usedD.insert(e->a->c); return z.bv_const(("f_" + std::to_string(e->a->c)).c_str(), 64); }
          return z3::expr(z, Z3_mk_fpa_to_ieee_bv(z, tr(e->a)));
        case DEQ: return z3::expr(z, Z3_mk_fpa_eq(z, tr(e->a), tr(e->b)));
        case DLT: return z3::expr(z, Z3_mk_fpa_lt(z, tr(e->a), tr(e->b)));
        case DLE: return z3::expr(z, Z3_mk_fpa_leq(z, tr(e->a), tr(e->b)));
        case DISNAN: return z3::expr(z, Z3_mk_fpa_is_nan(z, tr(e->a)));
        case D2S: return z3::expr(z, Z3_mk_fpa_to_sbv(z, z3::expr(z, Z3_mk_fpa_rtz(z)), tr(e->a), w));
        case DPOW: { z3::func_decl f = z.function("pow", fps(), fps(), fps()); approx = true; return f(tr(e->a), tr(e->b)); }
        default: throw Unsupported("fp-mode operation");
      }
    }
    switch (e->op) {
      case DCONST: return ratConst(asD(e->c));
      case DSYM: return symReal(e->c);
      case DADD: return tr(e->a) + tr(e->b);
      case DSUB: return tr(e->a) - tr(e->b);
      case DMUL: return tr(e->a) * tr(e->b);
      case DDIV: return tr(e->a) / tr(e->b);
      case DNEG: return -tr(e->a);
      case DFLOOR: return floorR(tr(e->a));
      case DROUNDE: return z3::to_real(e->c ? rhaInt(tr(e->a)) : rheInt(tr(e->a)));
      case DSQRT: { z3::func_decl f = z.function("usqrt", z.real_sort(), z.real_sort()); approx = true; return f(tr(e->a)); }
      case DPOW: { z3::func_decl f = z.function("upow", z.real_sort(), z.real_sort(), z.real_sort()); approx = true; return f(tr(e->a), tr(e->b)); }
      case DFROMU:
        if (e->a->op == SYM) return z3::to_real(symInt(e->a->c));
        return z3::to_real(z3::expr(z, Z3_mk_bv2int(z, asBV(e->a), false)));
      case DFROMS:
        if (e->a->op == SYM) return z3::to_real(symInt(e->a->c));
        return z3::to_real(z3::expr(z, Z3_mk_bv2int(z, asBV(e->a), true)));
      case DFMT: return fmtReal(e);
      case BITS2D: { approx = true; z3::func_decl f = z.function("bits2d", z.bv_sort(64), z.real_sort()); return f(tr(e->a)); }
      case D2BITS: { approx = true; z3::func_decl f = z.function("d2bits", z.real_sort(), z.bv_sort(64)); return f(tr(e->a)); }
      case DEQ: if (intTerm(e->a) && intTerm(e->b)) return trInt(e->a) == trInt(e->b); return tr(e->a) == tr(e->b);
      case DLT: if (intTerm(e->a) && intTerm(e->b)) return trInt(e->a) < trInt(e->b); return tr(e->a) < tr(e->b);
      case DLE: if (intTerm(e->a) && intTerm(e->b)) return trInt(e->a) <= trInt(e->b); return tr(e->a) <= tr(e->b);
      case DISNAN: return z.bool_val(false);
      case D2S: { z3::expr x = tr(e->a); z3::expr t = z3::ite(x >= 0, z3::expr(z, Z3_mk_real2int(z, x)), -z3::expr(z, Z3_mk_real2int(z, -x)));
        return z3::expr(z, Z3_mk_int2bv(z, w, t)); }
      default: throw Unsupported("real-mode operation");
    }
  }
  z3::expr fmtReal(Expr* e) {
    int kind = e->c >> 8, prec = e->c & 255;
    z3::expr x = tr(e->a);
    z3::expr zero = z.real_val(0);
    auto sgnz = [&](z3::expr v) { return z3::ite(v == zero && x < zero, z.real_val("-1/1000000000000000000000000000000"), v); };
    if (kind == 1) {
      std::string p = pow10s(prec);
      return sgnz(z3::to_real(rheInt(x * z.real_val(p.c_str()))) / z.real_val(p.c_str()));
    }
    // significant digits: split by decade
    int P = kind == 0 ? (prec == 0 ? 1 : prec) : prec + 1;
    z3::expr ax = z3::ite(x < zero, -x, x);
    z3::expr r = z.real_val(0);
    for (int k = -8; k <= 12; k++) {  // 10^k <= |x| < 10^(k+1)
      int sc = P - 1 - k;
      z3::expr scl = sc >= 0 ? z.real_val(pow10s(sc).c_str()) : z.real_val(("1/" + pow10s(-sc)).c_str());
      z3::expr v = z3::to_real(rheInt(x * scl)) / scl;
      z3::expr lowb = k >= 0 ? z.real_val(pow10s(k).c_str()) : z.real_val(("1/" + pow10s(-k)).c_str());
      r = (k == -8) ? z3::ite(ax < lowb, x, v) : z3::ite(ax >= lowb, v, r);
    }
    return r;
  }

  // collect atoms used by an expression
  std::unordered_map<uint32_t, int> useMemo;
  void collect(Expr* e, std::unordered_set<uint32_t>& seen, std::set<int>& bv, std::set<int>& in, std::set<int>& dd, bool& ap) {
    if (e->syms->empty() || !seen.insert(e->id).second) return;
    if (e->op == SYM) bv.insert(e->c);
    else if (e->op == DSYM) dd.insert(e->c);
    else if (!C.fpMode && (e->op == DFROMU || e->op == DFROMS) && e->a->op == SYM) { in.insert(e->a->c); return; }
    if (e->op == DPOW || e->op == DSQRT || (!C.fpMode && (e->op == BITS2D || e->op == D2BITS))) ap = true;
    for (Expr* x : {e->a, e->b, e->d}) if (x) collect(x, seen, bv, in, dd, ap);
  }

  // rational function decomposition for polynomial identities (real mode)
  bool hasDiv(Expr* e, std::unordered_map<uint32_t, bool>& m) {
    auto it = m.find(e->id); if (it != m.end()) return it->second;
    bool r = e->op == DDIV && !C.isDC(e->b);
    for (Expr* x : {e->a, e->b, e->d}) if (!r && x) r = hasDiv(x, m);
    return m[e->id] = r;
  }
  struct Frac { z3::expr n, d; bool unit; double sz, dsz; };
  std::unordered_map<uint32_t, Frac> fm;
  std::unordered_set<uint32_t> atoms;
  struct TooBig {};
  // terms that are linear in few symbols (numbers parsed from digits) as k * unknown, one unknown for
  // every linear form up to a factor: an identity in the unknowns holds for every value of the digits
  bool useLin = false;
  struct Lin { int st; z3::expr k, at; };  // st 0 not linear, 1 linear, 2 number
  std::unordered_map<uint32_t, Lin> lm;
  Lin lin(Expr* e) {
    auto it = lm.find(e->id); if (it != lm.end()) return it->second;
    Lin r{0, z.real_val(1), z.real_val(1)};
    bool leaf = e->op == DFROMS || e->op == DFROMU, ok = leaf || C.isDC(e);
    if (e->op == DADD || e->op == DSUB) ok = lin(e->a).st && lin(e->b).st;
    if (e->op == DNEG) ok = lin(e->a).st;
    if (e->op == DMUL) ok = (C.isDC(e->a) && lin(e->b).st) || (C.isDC(e->b) && lin(e->a).st);
    if (e->op == DDIV) ok = C.isDC(e->b) && lin(e->a).st;
    if (ok && C.isDC(e)) { r.st = 2; r.k = tr(e); }
    else if (ok && e->syms->size() >= 1 && e->syms->size() <= 12) {
      std::set<int> bv, in, dd; bool ap = false; { std::unordered_set<uint32_t> seen; collect(e, seen, bv, in, dd, ap); }
      if (bv.empty() && dd.empty() && !ap && !in.empty()) {
        z3::expr t = tr(e); z3::expr_vector v(z), zero(z); std::string key; bool good = true; std::vector<z3::expr> cs;
        for (int b : in) { v.push_back(symInt(b)); zero.push_back(z.int_val(0)); }
        z3::expr c0 = z3::expr(t).substitute(v, zero).simplify(), f = c0; good = c0.is_numeral();
        for (unsigned i = 0; good && i < v.size(); i++) {
          z3::expr_vector w(z); for (unsigned j = 0; j < v.size(); j++) w.push_back(z.int_val(i == j ? 1 : 0));
          z3::expr ci = (z3::expr(t).substitute(v, w) - c0).simplify(); good = ci.is_numeral(); cs.push_back(ci); f = f + ci * z3::to_real(v[i]);
        }
        if (good) { z3::params p(z); p.set("som", true); p.set("arith_lhs", true); good = (t - f == z.real_val(0)).simplify(p).is_true(); }
        if (good) {
          int lead = -1; for (unsigned i = 0; i < cs.size(); i++) if (!z3::eq(cs[i], z.real_val(0))) { lead = i; break; }
          if (lead < 0) { r.st = 2; r.k = c0; }
          else {
            z3::expr k = cs[lead];
            for (unsigned i = 0; i < cs.size(); i++) key += v[i].decl().name().str() + "*" + (cs[i] / k).simplify().to_string() + "+";
            key += (c0 / k).simplify().to_string();
            r.st = 1; r.k = k; r.at = z.real_const(("lin_" + key).c_str());
          }
        }
      }
    }
    lm.insert({e->id, r}); return r;
  }
  Frac frac(Expr* e) {
    auto it = fm.find(e->id); if (it != fm.end()) return it->second;
    z3::expr one = z.real_val(1);
    Frac r{one, one, true, 1, 1};
    if (useLin && !atoms.count(e->id)) { Lin l = lin(e); if (l.st) { r.n = l.st == 2 ? l.k : l.k * l.at; fm.insert({e->id, r}); return r; } }
    if (atoms.count(e->id)) r.n = z.real_const(("at_" + std::to_string(e->id)).c_str());
    else switch (e->op) {
      case DADD: case DSUB: { Frac a = frac(e->a), b = frac(e->b);
        z3::expr x = b.unit ? a.n : a.n * b.d, y = a.unit ? b.n : b.n * a.d;
        r.n = e->op == DADD ? x + y : x - y; r.sz = a.sz * b.dsz + b.sz * a.dsz; r.unit = a.unit && b.unit; if (!r.unit) { r.d = a.unit ? b.d : b.unit ? a.d : a.d * b.d; r.dsz = a.dsz * b.dsz; } break; }
      case DMUL: { Frac a = frac(e->a), b = frac(e->b); r.n = a.n * b.n; r.sz = a.sz * b.sz; r.unit = a.unit && b.unit; if (!r.unit) { r.d = a.unit ? b.d : b.unit ? a.d : a.d * b.d; r.dsz = a.dsz * b.dsz; } break; }
      case DDIV: { Frac a = frac(e->a), b = frac(e->b); r.n = b.unit ? a.n : a.n * b.d; r.d = a.unit ? b.n : a.d * b.n; r.sz = a.sz * b.dsz; r.dsz = a.dsz * b.sz; r.unit = false; break; }
      case DNEG: { Frac a = frac(e->a); r.n = -a.n; r.d = a.d; r.unit = a.unit; r.sz = a.sz; r.dsz = a.dsz; break; }
      default: r.n = tr(e); break;
    }
    if (r.sz > 60000 || r.dsz > 60000) throw TooBig();
    fm.insert({e->id, r});
    return r;
  }
  bool identical1(Expr* a, Expr* b) {
    fm.clear();
    try {
      Frac x = frac(a), y = frac(b);
      if (x.sz * y.dsz > 120000 || y.sz * x.dsz > 120000) return false;
      z3::expr l = y.unit ? x.n : x.n * y.d, r = x.unit ? y.n : y.n * x.d;
      z3::params p(z);
      p.set("som", true); p.set("som_blowup", 100000u); p.set("arith_lhs", true); p.set("pull_cheap_ite", false);
      double t0 = now();
      z3::expr q = (l - r == z.real_val(0)).simplify(p);
      if (getenv("SYMX_SLOW") && now() - t0 > atof(getenv("SYMX_SLOW"))) fprintf(stderr, "slow identity %.2f sizes %g %g atoms %zu -> %d\n", now() - t0, x.sz * y.dsz, y.sz * x.dsz, atoms.size(), (int)q.is_true());
      solverTime += now() - t0;
      return q.is_true();
    } catch (TooBig&) { return false; }
  }
  // do a and b differ only in the last places of their constants (a constant product folded in another order)?
  double biggest(const z3::expr& e0) {
    z3::params p(z); p.set("som", true); p.set("som_blowup", 100000u); p.set("pull_cheap_ite", false);
    z3::expr e = e0.simplify(p);
    std::vector<z3::expr> terms;
    if (e.is_app() && e.decl().decl_kind() == Z3_OP_ADD) for (unsigned i = 0; i < e.num_args(); i++) terms.push_back(e.arg(i)); else terms.push_back(e);
    double m = 0;
    for (auto& t : terms) {
      double c = 1;
      if (t.is_numeral()) { if (!t.is_numeral(c)) c = INFINITY; }
      else if (t.decl().decl_kind() == Z3_OP_UMINUS) c = 1;
      else if (t.decl().decl_kind() == Z3_OP_MUL && t.arg(0).is_numeral()) { if (!t.arg(0).is_numeral(c)) c = INFINITY; }
      m = std::max(m, std::fabs(c));
    }
    return m;
  }
  bool rounding(Expr* a, Expr* b) {
    atoms.clear(); fm.clear();
    std::unordered_set<uint32_t> ua, ub;
    under(a, ua); under(b, ub);
    for (uint32_t i : ua) if (ub.count(i) && i != a->id && i != b->id) atoms.insert(i);
    for (int k = 0; k < 2; k++, atoms.clear(), fm.clear()) try {
      Frac x = frac(a), y = frac(b);
      if (x.sz * y.dsz > 120000 || y.sz * x.dsz > 120000) continue;
      z3::expr l = y.unit ? x.n : x.n * y.d, r = x.unit ? y.n : y.n * x.d;
      if (biggest(l - r) <= 1e-13 * biggest(l)) { atoms.clear(); fm.clear(); return true; }
    } catch (TooBig&) {} catch (z3::exception&) {}
    return false;
  }
  void under(Expr* e, std::unordered_set<uint32_t>& s) {
    if (!e || !e->hasD || e->w != 0 || e->op == DCONST || e->op == DSYM || !s.insert(e->id).second) return;
    under(e->a, s); under(e->b, s); under(e->d, s);
  }
  std::unordered_map<uint32_t, bool> dm;
  bool hasDigits(Expr* e) {
    auto it = dm.find(e->id); if (it != dm.end()) return it->second;
    bool r = e->op == DFROMS || e->op == DFROMU;
    for (Expr* x : {e->a, e->b, e->d}) if (!r && x) r = hasDigits(x);
    return dm[e->id] = r;
  }
  // is a == b as rational functions (denominators nonzero)? Terms both sides share are first
  // treated as unknowns (sound: an identity in the unknowns holds for every value of them).
  bool identical(Expr* a, Expr* b) {
    atoms.clear();
    if (hasDigits(a) && hasDigits(b)) { useLin = true; bool r = identical1(a, b); useLin = false; fm.clear(); if (r) return true; }
    std::unordered_set<uint32_t> ua, ub;
    under(a, ua); under(b, ub);
    for (uint32_t i : ua) if (ub.count(i) && i != a->id && i != b->id) atoms.insert(i);
    bool r = identical1(a, b);
    atoms.clear();
    return r || identical1(a, b);
  }

  double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

  // nonlinear arithmetic over the reals: Z3 does not reliably honour its time limit there, so such a
  // query runs in a child process that is killed when its time is up
  std::unordered_map<uint32_t, bool> nlm;
  bool nonlinear(Expr* e) {
    if (!e->hasD || e->syms->empty()) return false;
    auto it = nlm.find(e->id); if (it != nlm.end()) return it->second;
    bool r = (e->op == DMUL && !C.isDC(e->a) && !C.isDC(e->b)) || (e->op == DDIV && !C.isDC(e->b)) || e->op == DPOW || e->op == DSQRT;
    for (Expr* x : {e->a, e->b, e->d}) if (!r && x) r = nonlinear(x);
    return nlm[e->id] = r;
  }
  u64 nHardUnknown = 0; double hardUnknownTime = 0;
  double deadline = 0; bool important = false;
  static bool readAll(int fd, void* p, size_t n, double until) {
    char* c = (char*)p;
    while (n) {
      struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); double left = until - (t.tv_sec + 1e-9 * t.tv_nsec);
      if (left <= 0) return false;
      struct pollfd f{fd, POLLIN, 0};
      int r = poll(&f, 1, (int)std::min(left * 1000 + 1, 1000.0));
      if (r < 0 && errno != EINTR) return false;
      if (r <= 0) continue;
      ssize_t k = read(fd, c, n);
      if (k <= 0) return false;
      c += k; n -= k;
    }
    return true;
  }
  Res checkForked(const std::vector<Expr*>& cs, const std::set<int>& bv, const std::set<int>& in, const std::set<int>& dd, bool ap, std::shared_ptr<Model>& mod) {
    double lim = timeoutMs / 1000.0;
    if (!important) lim = std::min(lim, nHardUnknown < 6 ? timeoutMs / 5000.0 : nHardUnknown < 20 ? 1.5 : 0.3);
    else if (nHardUnknown > 10) lim = std::min(lim, 3.0);
    if (deadline) lim = std::min(lim, std::max(0.2, deadline - now()));
    int fd[2]; if (pipe(fd)) return UNKNOWN;
    double t0 = now();
    pid_t pid = ::fork();
    if (pid < 0) { close(fd[0]); close(fd[1]); return UNKNOWN; }
    if (pid == 0) {
      close(fd[0]);
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      struct rlimit rl; rl.rlim_cur = rl.rlim_max = (rlim_t)6 << 30; setrlimit(RLIMIT_AS, &rl);
      struct rlimit cl; cl.rlim_cur = cl.rlim_max = (rlim_t)lim + 2; setrlimit(RLIMIT_CPU, &cl);
      std::shared_ptr<Model> m; Res r = UNKNOWN;
      try { r = check1(cs, bv, in, dd, ap, true, m, 0); } catch (...) { r = UNKNOWN; }
      std::vector<u64> b; b.push_back(r == SAT ? 1 : r == UNSAT ? 2 : 3); b.push_back(0);
      if (m) for (size_t i = 0; i < m->v.size(); i++) if (m->has[i]) { b.push_back(i); b.push_back(m->v[i]); b[1]++; }
      const char* c = (const char*)b.data(); size_t n = b.size() * 8;
      while (n) { ssize_t k = write(fd[1], c, n); if (k <= 0) break; c += k; n -= k; }
      _exit(0);
    }
    close(fd[1]);
    u64 hd[2]; Res res = UNKNOWN;
    if (readAll(fd[0], hd, 16, t0 + lim)) {
      res = hd[0] == 1 ? SAT : hd[0] == 2 ? UNSAT : UNKNOWN;
      std::vector<u64> b(hd[1] * 2);
      if (hd[1] && readAll(fd[0], b.data(), b.size() * 8, t0 + lim + 5)) { mod = std::make_shared<Model>(); for (size_t i = 0; i < b.size(); i += 2) mod->set(b[i], b[i + 1]); }
    }
    close(fd[0]);
    kill(pid, SIGKILL);
    int stt; while (waitpid(pid, &stt, 0) < 0 && errno == EINTR) {}
    if (res == UNKNOWN) { nHardUnknown++; hardUnknownTime += now() - t0; }
    return res;
  }
  Res check1(const std::vector<Expr*>& cs, const std::set<int>& bv, const std::set<int>& in, const std::set<int>& dd, bool ap, bool anyD, std::shared_ptr<Model>& mod, unsigned limit) {
    Res res = UNKNOWN;
    try {
      bool pureBV = !anyD;
      bool pureReal = !C.fpMode && anyD && bv.empty();
      for (int attempt = 0; attempt < 2 && res == UNKNOWN; attempt++) {
        z3::solver s = pureBV ? (attempt == 0 ? z3::solver(z, "QF_BV") : z3::solver(z))
                     : C.fpMode ? (attempt == 0 ? z3::solver(z, "QF_FPBV") : z3::solver(z))
                     : (pureReal && in.empty() && !ap && attempt == 0) ? z3::solver(z, "QF_NRA")
                     : z3::solver(z);
        z3::params p(z);
        p.set("timeout", limit ? limit : 4294967295u);
        s.set(p);
        for (Expr* e : cs) s.add(tr(e));
        for (int b : bv) { auto& si = C.syms[b]; if (si.ranged) { z3::expr x = symBV(b);
            if (si.lo >= 0) { if (si.lo > 0) s.add(z3::uge(x, z.bv_val((uint64_t)si.lo, si.width))); if ((u64)si.hi < maskw(si.width)) s.add(z3::ule(x, z.bv_val((uint64_t)si.hi, si.width))); }
            else { s.add(x >= z.bv_val((int64_t)si.lo, si.width)); s.add(x <= z.bv_val((int64_t)si.hi, si.width)); } } }
        for (int b : in) { auto& si = C.syms[b]; z3::expr x = symInt(b);
            i64 lo = si.ranged ? si.lo : 0, hi = si.ranged ? si.hi : (i64)(maskw(si.width) >> (si.width == 64 ? 1 : 0));
            s.add(x >= z.int_val((int64_t)lo)); s.add(x <= z.int_val((int64_t)hi));
            if (bv.count(b)) { z3::expr bb = symBV(b); s.add(z3::expr(z, Z3_mk_bv2int(z, bb, lo < 0)) == x); } }
        if (!C.fpMode) for (int b : dd) { auto& si = C.syms[b]; if (si.dranged) { z3::expr x = symReal(b); s.add(x >= ratConst(si.dlo)); s.add(x <= ratConst(si.dhi)); } }
        z3::check_result cr = s.check();
        res = cr == z3::sat ? SAT : cr == z3::unsat ? UNSAT : UNKNOWN;
        if (res == SAT) {
          mod = std::make_shared<Model>();
          z3::model m = s.get_model();
          for (int b : bv) { z3::expr v = m.eval(symBV(b), true); uint64_t u; if (Z3_get_numeral_uint64(z, v, &u)) mod->set(b, u); }
          for (int b : in) if (!bv.count(b)) { z3::expr v = m.eval(symInt(b), true); int64_t u; if (Z3_get_numeral_int64(z, v, &u)) mod->set(b, (u64)u & maskw(C.syms[b].width)); }
          for (int b : dd) {
            if (C.fpMode) { z3::expr v = m.eval(z.bv_const(("f_" + std::to_string(b)).c_str(), 64), true); uint64_t u; if (Z3_get_numeral_uint64(z, v, &u)) mod->set(b, u); }
            else { z3::expr v = m.eval(symReal(b), true); double d = 0;
              if (v.is_algebraic()) v = v.algebraic_lower(20) ;
              std::string sdec = Z3_get_numeral_string(z, v);
              size_t sl = sdec.find('/');
              if (sl == std::string::npos) d = strtod(sdec.c_str(), 0);
              else { long double n = strtold(sdec.substr(0, sl).c_str(), 0), q = strtold(sdec.substr(sl + 1).c_str(), 0); d = (double)(n / q); }
              mod->set(b, bitsD(d)); }
          }
        }
        if (pureBV && res == UNKNOWN) continue;
      }
    } catch (z3::exception& ex) {
      if (getenv("SYMX_DEBUG")) fprintf(stderr, "z3 exception: %s\n", ex.msg());
      res = UNKNOWN;
    }
    return res;
  }

  Res check(const std::vector<Expr*>& cs, std::shared_ptr<Model>* out, bool wantModel = true) {
    std::vector<uint32_t> key;
    for (Expr* e : cs) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = cache.find(key);
    if (it != cache.end()) { nCacheHits++; if (out) *out = it->second.second; return it->second.first; }
    double t0 = now();
    if (getenv("SYMX_PRE")) { fprintf(stderr, "query n=%zu\n", cs.size()); for (Expr* e : cs) fprintf(stderr, "   %s\n", C.str(e, 30).c_str()); }
    nQueries++;
    Res res = UNKNOWN;
    std::shared_ptr<Model> mod;
    std::set<int> bv, in, dd;
    bool ap = false, anyD = false;
    { std::unordered_set<uint32_t> seen; for (Expr* e : cs) { collect(e, seen, bv, in, dd, ap); if (e->hasD) anyD = true; } }
    bool hard = anyD && !C.fpMode;
    if (hard) { hard = false; for (Expr* e : cs) if (nonlinear(e)) hard = true; }
    if (hard) res = checkForked(cs, bv, in, dd, ap, mod);
    else res = check1(cs, bv, in, dd, ap, anyD, mod, timeoutMs);
    double dt = now() - t0;
    solverTime += dt;
    if (getenv("SYMX_SLOW") && dt > atof(getenv("SYMX_SLOW"))) {
      fprintf(stderr, "slow query %.2fs res=%d n=%zu\n", dt, res, cs.size());
      for (Expr* e : cs) fprintf(stderr, "   %s\n", C.str(e, 8).substr(0, 600).c_str());
    }
    if (res == SAT) nSat++; else if (res == UNSAT) nUnsat++; else nUnknown++;
    cache[key] = {res, mod};
    if (out) *out = mod;
    return res;
  }

  // restrict constraints to those transitively sharing symbols with seed
  std::vector<Expr*> slice(const std::vector<Expr*>& cs, Expr* seed) {
    std::vector<Expr*> r;
    std::vector<char> in(cs.size(), 0);
    std::set<int> S(seed->syms->begin(), seed->syms->end());
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < cs.size(); i++) {
        if (in[i]) continue;
        for (int s : *cs[i]->syms) if (S.count(s)) { in[i] = 1; ch = true; S.insert(cs[i]->syms->begin(), cs[i]->syms->end()); break; }
      }
    }
    for (size_t i = 0; i < cs.size(); i++) if (in[i]) r.push_back(cs[i]);
    return r;
  }
};
