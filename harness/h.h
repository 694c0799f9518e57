// Shared helpers for the harnesses.
#pragma once
#include "symx.h"
#include <string>
#include <vector>
#include <memory>
#include <cstdio>
#include <cstring>
#include "matrix.hpp"
namespace vh {
template <class F> struct Caller {
  F* f; int thrown;
  static void go(void* p) { Caller* c = (Caller*)p; try { (*c->f)(); } catch (...) { c->thrown = 1; } }
};
// 0 = returned, 1 = exception, 2 = the program exits
template <class F> int outcome(F f, bool may_end = false) {
  Caller<F> c; c.f = &f; c.thrown = 0;
  int ex = sym_try_exit(&Caller<F>::go, &c);
  if (ex && !may_end) sym_check(sym_exit_code() != 0, "a refusal that ends the program is reported by the exit status");
  return ex ? 2 : c.thrown;
}
template <class F> bool rejected(F f) { return outcome(f) != 0; }
inline std::string nm(const char* p, int i) { return std::string(p) + std::to_string(i); }
inline std::string nm(const char* p, int i, int j) { return std::string(p) + std::to_string(i) + "_" + std::to_string(j); }
inline std::string nm(const char* p, int i, int j, int k) { return nm(p, i, j) + "_" + std::to_string(k); }
inline double dbl(const std::string& n, double lo = -10, double hi = 10) { return sym_double_range(n.c_str(), lo, hi); }
inline catnip::Matrix* mat(const char* p, int r, int c, int s = 1, double lo = -10, double hi = 10) {
  catnip::Matrix* m = new catnip::Matrix(r, c, s);
  for (int i = 1; i <= r; i++) for (int j = 1; j <= c; j++) for (int k = 1; k <= s; k++) m->set_elem(dbl(nm(p, i, j, k), lo, hi), i, j, k);
  return m;
}
// elements of a matrix as plain values (read through the public interface)
inline std::vector<double> vals(const catnip::Matrix& m) {
  std::vector<double> v;
  for (int i = 1; i <= m.get_rows(); i++) for (int j = 1; j <= m.get_cols(); j++) for (int k = 1; k <= m.get_shel(); k++) v.push_back(m.get_elem(i, j, k));
  return v;
}
}
using namespace vh;
