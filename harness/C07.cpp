// C07: assignments that are not one to one are refused
#include "C05.h"
static bool perm(const VI& v, int n) { VI c(n + 1, 0); if ((int)v.size() != n) return false; for (int x : v) { if (x < 1 || x > n || c[x]) return false; c[x] = 1; } return true; }
static void go(int n, int nA, int nB, const VI& nb, int size, const VI& A, const VI& B) {
  VI all = A; all.insert(all.end(), B.begin(), B.end());
  // a block is lost when atoms of the dimer are left over; keeping them in place is not an error of the assignment itself
  Matrix* m = mat("c", 1, size); Matrix* s = mat("s", size, size);
  Matrix *rc = nullptr, *rs = nullptr;
  int oc = outcome([&] { rc = nB < 0 ? unscramble_Coef(A, nb, m) : unscramble_Coef(A, B, nb, m); });
  int os = outcome([&] { rs = nB < 0 ? unscramble_S(A, nb, s) : unscramble_S(A, B, nb, s); });
  bool ok = perm(all, n) && total(nb) == size;
  if (!ok && (int)all.size() >= n) { sym_check(oc != 0, "incomplete assignment refused for coefficients"); sym_check(os != 0, "incomplete assignment refused for the overlap"); sym_reach("refused"); }
  if (ok) {
    sym_check(oc == 0 && os == 0, "complete assignment accepted");
    if (oc == 0) judge_coef(*m, *rc, source(all, nb));
    if (os == 0) judge_S(*s, *rs, source(all, nb));
    sym_reach("accepted");
  }
  sym_obs_int("oc", oc); sym_obs_int("os", os);
}
// every entry of the assignment is free
extern "C" void t_two() {
  int n = sym_param("n", 3), nA = sym_param("nA", 1), wide = sym_param("wide", 0); VI A, B, nb;
  for (int i = 0; i < n; i++) { int v = wide ? sym_int(nm("m", i).c_str(), -2147483647, 2147483647) : sym_int(nm("m", i).c_str(), -1, n + 1); (i < nA ? A : B).push_back(v); nb.push_back(1 + (i + sym_param("k", 0)) % 2); }
  go(n, nA, n - nA, nb, total(nb), A, B);
}
extern "C" void t_one() {
  int n = sym_param("n", 3); VI A, nb;
  for (int i = 0; i < n; i++) { A.push_back(sym_int(nm("m", i).c_str(), -1, n + 1)); nb.push_back(1 + (i + sym_param("k", 0)) % 2); }
  go(n, n, -1, nb, total(nb), A, VI());
}
// basis function counts that do not add up
extern "C" void t_counts() {
  int n = 2, one = sym_choose("one", 2), size = 1 + sym_choose("size", 4); VI nb, A, B;
  for (int i = 0; i < n; i++) nb.push_back(1 + sym_choose(nm("b", i).c_str(), 3));
  if (one) A = {2, 1}; else { A = {2}; B = {1}; }
  go(n, 1, one ? -1 : 1, nb, size, A, B);
}
// more matches than atoms
extern "C" void t_more() {
  int n = 2, nA = sym_choose("nA", 4); VI A, B, nb = {1, 2};
  for (int i = 0; i < 3; i++) { int v = sym_int(nm("m", i).c_str(), -1, 3); (i < nA ? A : B).push_back(v); }
  go(n, nA, 3 - nA, nb, 3, A, B);
}
// through the positions: one atom of the dimer (or of the second monomer) displaced by any number of units of the fourth decimal
extern "C" void t_place() {
  static const double X[4][3] = {{0.5, -1.25, 2}, {0.5, -1.25, -2}, {12.3456, 0, 101.5}, {3.25, 7.0001, -0.75}};
  int cp = sym_choose("cp", 2), n1 = cp ? 3 : 2, n2 = cp ? 3 : 1, who = cp ? sym_choose("who", 2) : 0, at = sym_choose("at", 3), axis = sym_choose("axis", 3), k = sym_int("k", -sym_param("lim", 2000), sym_param("lim", 2000));
  double off = dbl("off", -0.45, 0.45);
  VI order = {2, 0, 1}, ident = {0, 1, 2}, nbP, nb2; 
  auto pos = [&](const VI& a, bool moved) { Matrix* m = new Matrix(3, (int)a.size()); for (size_t i = 0; i < a.size(); i++) for (int d = 0; d < 3; d++) { double b = X[a[i]][d]; if (moved && a[i] == at && d == axis) b = X[a[i]][d] + (k + off) / 10000; m->set_elem(b, d + 1, i + 1); } return m; };
  VI a1(ident.begin(), ident.begin() + n1), a2 = cp ? ident : VI{2};
  Matrix *p1 = pos(a1, false), *p2 = pos(a2, who == 1), *pP = pos(order, who == 0);
  static const int NB[3] = {1, 2, 1}; for (int a : order) nbP.push_back(NB[a]); for (int a : a2) nb2.push_back(NB[a]);
  int N = 4, b1 = cp ? 4 : 3, b2 = cp ? 4 : 1; (void)n2;
  Matrix one1(1, b1), one2(1, b2), P(1, N), S(N, N), E(1, 1);
  TransferComplex tc(&one1, &one2, &P, {1, 1}, {1, 1}, &S, &E, cp);
  int o = outcome([&] { tc.unscramble(*p1, *p2, *pP, nbP, nb2); });
  int same = k == 0;
  sym_check(same ? o == 0 : o != 0, "an atom is found exactly when its position agrees to four decimals");
  sym_obs_int("o", o); if (same) sym_reach("found"); else sym_reach("displaced");
}

// many atoms, one entry of the assignment free
extern "C" void t_many() {
  int n = sym_param("n", 12), at = sym_param("few", 0) ? sym_choose("at", 3) * (n - 1) / 2 : sym_choose("at", n), how = sym_choose("how", 2), one = sym_choose("one", 2), nA = one ? n : 1 + (at * 5) % (n - 1); VI nb, p;
  for (int i = 0; i < n; i++) { nb.push_back(1 + i % 3); p.push_back(how ? (i + 5) % n + 1 : n - i); }
  p[at] = sym_int("m", -1, n + 1);
  VI A(p.begin(), p.begin() + nA), B(p.begin() + nA, p.end());
  go(n, nA, one ? -1 : n - nA, nb, total(nb), A, B);
}
