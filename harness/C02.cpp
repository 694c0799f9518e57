// C02: the order in which atoms are listed does not change the result
#include "qc.h"
#include <algorithm>
typedef vector<int> VI;
static VI pick_perm(const char* nm, int n) {
  int f = 1; for (int i = 2; i <= n; i++) f *= i;
  int k = sym_choose(nm, f); VI left, r;
  for (int i = 0; i < n; i++) left.push_back(i);
  for (int i = n; i >= 1; i--) { f /= i; int d = k / f; k %= f; r.push_back(left[d]); left.erase(left.begin() + d); }
  return r;
}
// positions that differ in the sign, in one coordinate, in the fourth decimal only, or are longer than ten characters
static const double XYZ[6][3] = {{0, -0.00001, 1.5}, {0, 0, -1.5}, {-12.3456, 101.5, 1.5}, {-12.3457, 101.5, 1.5}, {0.00004, 3.25, 1.5}, {12.3456, 101.5, 1.5}};
static Matrix* coords(const VI& atoms) {
  Matrix* m = new Matrix(3, (int)atoms.size());
  for (size_t i = 0; i < atoms.size(); i++) for (int d = 0; d < 3; d++) m->set_elem(XYZ[atoms[i]][d], d + 1, i + 1);
  return m;
}
static VI counts(const VI& atoms, const VI& nb) { VI r; for (int a : atoms) r.push_back(nb[a]); return r; }
// for every basis function of the listing, its number in the canonical order
static VI cols(const VI& atoms, const VI& nb) {
  VI start(nb.size(), 0), r; int t = 0;
  for (size_t a = 0; a < nb.size(); a++) { start[a] = t; t += nb[a]; }
  for (int a : atoms) for (int j = 0; j < nb[a]; j++) r.push_back(start[a] + j);
  return r;
}
static Tab pcols(const Tab& t, const VI& c) { Tab r(t.size(), vector<double>(c.size())); for (size_t i = 0; i < t.size(); i++) for (size_t j = 0; j < c.size(); j++) r[i][j] = t[i][c[j]]; return r; }
static Tab pboth(const Tab& t, const VI& c) { Tab r(c.size(), vector<double>(c.size())); for (size_t i = 0; i < c.size(); i++) for (size_t j = 0; j < c.size(); j++) r[i][j] = t[c[i]][c[j]]; return r; }
static VI basis_of(int n) {
  int w = sym_param("basis", 0);
  static const int B[4][6] = {{1, 2, 1, 1, 1, 1}, {2, 1, 1, 1, 2, 1}, {1, 1, 1, 1, 1, 1}, {1, 3, 1, 2, 1, 1}};
  return VI(B[w], B[w] + n);
}
static VI iota_(int a, int b) { VI r; for (int i = a; i < b; i++) r.push_back(i); return r; }
static int sum(const VI& v, int a, int b) { int t = 0; for (int i = a; i < b; i++) t += v[i]; return t; }
// without counterpoise: nA atoms in the first, nB in the second monomer, the dimer lists them in any order
extern "C" void t_noncp() {
  int nA = sym_param("nA", 2), nB = sym_param("nB", 1), n = nA + nB, no = sym_param("no", 2);
  VI nb = basis_of(n); int b1 = sum(nb, 0, nA), b2 = sum(nb, nA, n), N = b1 + b2; double l = lim(N, no);
  Tab a = tab("a", 1, b1, -l, l), b = tab("b", 1, b2, -l, l), P = tab("p", no, N, -l, l), S = tab("s", N, N, -1, 1); vector<double> E = tab("e", 1, no, -20, 20)[0];
  VI perm = pick_perm("order", n), c = cols(perm, nb);
  TransferComplex tc(mk(a), mk(b), mk(pcols(P, c)), {1, 1}, {1, 1}, mk(pboth(S, c)), mkcol(E), 0);
  tc.unscramble(*coords(iota_(0, nA)), *coords(iota_(nA, n)), *coords(perm), counts(perm, nb), counts(iota_(nA, n), nb));
  sym_out_clear();
  double J = tc.calcJ(types("HOMO", "HOMO"), nums(0, 0));
  judge(reference(pad(a[0], 0, N), pad(b[0], b1, N), P, S, E), J);
  sym_obs_d("J", J); sym_reach("reordered");
}
// with counterpoise: all atoms in all three files, in any order in the second monomer and the dimer
extern "C" void t_cp() {
  int n = sym_param("n", 3), no = sym_param("no", 2);
  VI nb = basis_of(n); int N = sum(nb, 0, n); double l = lim(N, no);
  Tab a = tab("a", 1, N, -l, l), b = tab("b", 1, N, -l, l), P = tab("p", no, N, -l, l), S = tab("s", N, N, -1, 1); vector<double> E = tab("e", 1, no, -20, 20)[0];
  VI p2 = sym_param("same2", 0) ? iota_(0, n) : pick_perm("order2", n), pp = sym_param("samep", 0) ? iota_(0, n) : pick_perm("orderP", n), c2 = cols(p2, nb), cp = cols(pp, nb);
  TransferComplex tc(mk(a), mk(pcols(b, c2)), mk(pcols(P, cp)), {1, 1}, {1, 1}, mk(pboth(S, cp)), mkcol(E), 1);
  tc.unscramble(*coords(iota_(0, n)), *coords(p2), *coords(pp), counts(pp, nb), counts(p2, nb));
  sym_out_clear();
  double J = tc.calcJ(types("HOMO", "HOMO"), nums(0, 0));
  judge(reference(a[0], b[0], P, S, E), J);
  sym_obs_d("J", J); sym_reach("reordered with counterpoise");
}

// more atoms: rotations and reversals of the listing, given values with a few symbolic ones
extern "C" void t_big() {
  int n = sym_param("n", 9), nA = sym_choose("cp", 2) ? n : n / 2, cp = nA == n, k = sym_param("few", 0) ? sym_choose("shift", 3) * (n / 3) + 1 : sym_choose("shift", n), rev = sym_choose("reverse", 2), no = 3;
  VI nb, perm, other = iota_(cp ? 0 : nA, n); for (int i = 0; i < n; i++) { nb.push_back(1 + i % 3); perm.push_back((rev ? n - 1 - i + k : i + k) % n); }
  if (cp) std::rotate(other.begin(), other.begin() + (n - k) / 2, other.end());
  int N = sum(nb, 0, n), b1 = cp ? N : sum(nb, 0, nA), b2 = cp ? N : N - b1;
  auto given = [](int r, int c, double scale, int seed) { Tab t(r, vector<double>(c)); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) t[i][j] = ((i * 11 + j * 5 + seed * 3) % 19 - 9) * scale; return t; };
  Tab a = given(1, b1, 0.015625, 1), b = given(1, b2, 0.015625, 2), P = given(no, N, 0.015625, 3), S = given(N, N, 0.00390625, 4); vector<double> E = given(1, no, 0.5, 5)[0];
  for (int i = 0; i < N; i++) S[i][i] = 1;
  b[0][b2 - 1] = dbl("b", -0.125, 0.125); P[1][0] = dbl("p", -0.125, 0.125);
  Matrix X(3, n); for (int i = 0; i < n; i++) { X.set_elem(i * 1.5 - 4, 1, i + 1); X.set_elem((i % 3) * 0.75, 2, i + 1); X.set_elem(-i * 0.0001, 3, i + 1); }
  auto at = [&](const VI& v) { Matrix* m = new Matrix(3, (int)v.size()); for (size_t i = 0; i < v.size(); i++) for (int d = 1; d <= 3; d++) m->set_elem(X.get_elem(d, v[i] + 1), d, i + 1); return m; };
  VI c = cols(perm, nb), c2 = cp ? cols(other, nb) : iota_(0, b2);
  TransferComplex tc(mk(a), mk(pcols(b, c2)), mk(pcols(P, c)), {1, 1}, {1, 1}, mk(pboth(S, c)), mkcol(E), cp);
  tc.unscramble(*at(iota_(0, nA)), *at(other), *at(perm), counts(perm, nb), counts(other, nb));
  sym_out_clear();
  double J = tc.calcJ(types("HOMO", "HOMO"), nums(0, 0));
  judge(reference(cp ? a[0] : pad(a[0], 0, N), cp ? b[0] : pad(b[0], b1, N), P, S, E), J);
  sym_obs_d("J", J); sym_reach("many atoms reordered");
}

// reordered twice: a listing that is already in order stays, the inputs given stay as they were, and asking twice gives the same result
extern "C" void t_again() {
  int cp = sym_choose("cp", 2), nA = cp ? 3 : 2, n = 3, no = 1; VI nb = {1, 2, 1}, perm = pick_perm("order", n), c = cols(perm, nb); int N = 4, b1 = cp ? 4 : 3, b2 = cp ? 4 : 1; double l = lim(N, no);
  Tab a = tab("a", 1, b1, -l, l), b = tab("b", 1, b2, -l, l), P = tab("p", no, N, -l, l), S = tab("s", N, N, -1, 1); vector<double> E = tab("e", 1, no, -20, 20)[0];
  VI o1 = iota_(0, nA), o2 = cp ? iota_(0, n) : iota_(nA, n);
  Matrix *m1 = mk(a), *m2 = mk(b), *mp = mk(pcols(P, c)), *ms = mk(pboth(S, c)), *x1 = coords(o1), *x2 = coords(o2), *xp = coords(perm);
  Matrix* all[7] = {m1, m2, mp, ms, x1, x2, xp}; vector<vector<double>> before; for (Matrix* m : all) before.push_back(vals(*m));
  TransferComplex tc(m1, m2, mp, {1, 1}, {1, 1}, ms, mkcol(E), cp);
  tc.unscramble(*x1, *x2, *xp, counts(perm, nb), counts(o2, nb));
  if (sym_choose("twice", 2)) tc.unscramble(*x1, *x2, *coords(iota_(0, n)), nb, counts(o2, nb));
  sym_out_clear(); double J = tc.calcJ(types("HOMO", "HOMO"), nums(0, 0));
  judge(reference(cp ? a[0] : pad(a[0], 0, N), cp ? b[0] : pad(b[0], b1, N), P, S, E), J);
  sym_check_eqd(tc.calcJ(types("HOMO", "HOMO"), nums(0, 0)), J, "the same result when asked again");
  for (int q = 0; q < 7; q++) { vector<double> v = vals(*all[q]); sym_check(v.size() == before[q].size(), "inputs unchanged"); for (size_t i = 0; i < v.size() && i < before[q].size(); i++) sym_check_eqd(v[i], before[q][i], "inputs unchanged"); }
  sym_obs_d("J", J); sym_reach("again");
}
