// Helpers for the transfer integral harnesses
#pragma once
#include "h.h"
#include "qc_functions.hpp"
#include "constants.hpp"
#include <climits>
#include <map>
using namespace catnip;
using std::vector; using std::string; using std::map;
typedef vector<vector<double>> Tab;
static Tab tab(const char* p, int r, int c, double lo, double hi) { Tab t(r, vector<double>(c)); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) t[i][j] = dbl(nm(p, i, j), lo, hi); return t; }
static Matrix* mk(const Tab& t) { Matrix* m = new Matrix((int)t.size(), (int)t[0].size()); for (size_t i = 0; i < t.size(); i++) for (size_t j = 0; j < t[0].size(); j++) m->set_elem(t[i][j], i + 1, j + 1); return m; }
static Matrix* mkcol(const vector<double>& v) { Matrix* m = new Matrix((int)v.size(), 1); for (size_t i = 0; i < v.size(); i++) m->set_elem(v[i], i + 1, 1); return m; }
struct Ref { double J, ea, eb, S, num, den; };
// direct projection formula: orbital a, orbital b over the dimer basis
static Ref reference(const vector<double>& a, const vector<double>& b, const Tab& P, const Tab& S, const vector<double>& E) {
  int nb = S.size(), no = P.size();
  vector<double> ga(no, 0), gb(no, 0);
  for (int k = 0; k < no; k++) for (int i = 0; i < nb; i++) for (int j = 0; j < nb; j++) {
    ga[k] += a[i] * (S[i][j] * P[k][j]);
    gb[k] += b[i] * (S[i][j] * P[k][j]);
  }
  Ref r = {0, 0, 0, 0, 0, 0};
  for (int k = 0; k < no; k++) { r.J += gb[k] * (E[k] * ga[k]); r.ea += ga[k] * (E[k] * ga[k]); r.eb += gb[k] * (E[k] * gb[k]); r.S += gb[k] * ga[k]; }
  r.num = r.J - 0.5 * (r.ea + r.eb) * r.S; r.den = 1 - r.S * r.S;
  return r;
}
static vector<double> pad(const vector<double>& v, int before, int total) { vector<double> r(total, 0); for (size_t i = 0; i < v.size(); i++) r[before + i] = v[i]; return r; }
static map<string, string> types(const char* a, const char* b) { map<string, string> m; m["mon1"] = a; m["mon2"] = b; return m; }
static map<string, int> nums(int a, int b) { map<string, int> m; m["mon1"] = a; m["mon2"] = b; return m; }
static double shown(const char* l, const char* what) { double v = 0; sym_check(sym_out_number(l, 0, 4, &v), what); return v; }
// the printed intermediate values are the projections, and the result is their combination
static void judge(const Ref& r, double J) {
  const double h = 27.2114;
  double j = shown("J_ab", "J_ab printed"), ea = shown("e_a", "e_a printed"), eb = shown("e_b", "e_b printed"), s = shown("S_ab", "S_ab printed"), je = shown("J_eff", "J_eff printed");
  if (sym_symbolic()) sym_check_eqd(J * h, (j - 0.5 * (ea + eb) * s) / (1 - s * s), "J_eff is the projected transfer integral");
  else sym_check_near(J, r.num / r.den, 1e-11, "J_eff is the projected transfer integral");
  sym_check_near(j, r.J * h, 1e-5, "J_ab"); sym_check_near(ea, r.ea * h, 1e-5, "e_a"); sym_check_near(eb, r.eb * h, 1e-5, "e_b"); sym_check_near(s, r.S, 1e-5, "S_ab");
  sym_check_near(je, J * h, 1e-5, "J_eff printed is the result in eV");
}
static void run(int cp, int n1, int n2, int nb, int no, const Tab& c1, const Tab& c2, const Tab& P, const Tab& S, const vector<double>& E, int h1, int h2, const char* t1, int k1, const char* t2, int k2, int row1, int row2) {
  Matrix *m1 = mk(c1), *m2 = mk(c2), *mp = mk(P), *ms = mk(S), *me = mkcol(E);
  vector<double> a = cp ? c1[row1] : pad(c1[row1], 0, nb), b = cp ? c2[row2] : pad(c2[row2], n1, nb);
  Ref r = reference(a, b, P, S, E);
  TransferComplex tc(m1, m2, mp, {(int)c1.size(), h1}, {(int)c2.size(), h2}, ms, me, cp);
  sym_out_clear();
  double J = tc.calcJ(types(t1, t2), nums(k1, k2));
  judge(r, J);
  sym_obs_d("J", J);
}
// every coefficient, overlap and energy symbolic; ranges keep the overlap of the orbitals below one
static double lim(int nb, int no) { double l = 0.9; while (no * (nb * nb * l * l) * (nb * nb * l * l) > 0.8) l *= 0.9; return l; }
