// Reordering helpers shared by C05 and C07
#pragma once
#include "h.h"
#include "qc_functions.hpp"
using namespace catnip; using std::vector; typedef vector<int> VI;
static VI pick_perm(const char* nm, int n) {
  int f = 1; for (int i = 2; i <= n; i++) f *= i;
  int k = sym_choose(nm, f); VI left, r;
  for (int i = 0; i < n; i++) left.push_back(i + 1);
  for (int i = n; i >= 1; i--) { f /= i; int d = k / f; k %= f; r.push_back(left[d]); left.erase(left.begin() + d); }
  return r;
}
// number of the source column for every column of the result: the blocks in the order of the matches
static VI source(const VI& order, const VI& nb) {
  VI r;
  for (int a : order) { int s = 0; for (int i = 0; i < a - 1; i++) s += nb[i]; for (int j = 1; j <= nb[a - 1]; j++) r.push_back(s + j); }
  return r;
}
static int total(const VI& nb) { int t = 0; for (int x : nb) t += x; return t; }
static void same(const Matrix& m, const vector<double>& v, const char* l) { vector<double> w = vals(m); sym_check(w.size() == v.size(), l); if (w.size() == v.size()) for (size_t i = 0; i < v.size(); i++) sym_check_eqd(w[i], v[i], l); }
static void judge_coef(const Matrix& in, const Matrix& out, const VI& src) {
  sym_check(out.get_rows() == in.get_rows() && out.get_cols() == in.get_cols() && out.get_shel() == 1, "size of the reordered coefficients");
  for (int i = 1; i <= in.get_rows(); i++) for (int j = 1; j <= in.get_cols(); j++) sym_check_eqd(out.get_elem(i, j), in.get_elem(i, src[j - 1]), "coefficients of whole blocks in the asked order");
}
static void judge_S(const Matrix& in, const Matrix& out, const VI& src) {
  sym_check(out.get_rows() == in.get_rows() && out.get_cols() == in.get_cols() && out.get_shel() == 1, "size of the reordered overlap");
  for (int i = 1; i <= in.get_rows(); i++) for (int j = 1; j <= in.get_cols(); j++) sym_check_eqd(out.get_elem(i, j), in.get_elem(src[i - 1], src[j - 1]), "overlap rows and columns of whole blocks in the asked order");
}
