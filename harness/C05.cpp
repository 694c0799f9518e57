// C05: reordering moves whole blocks
#include "C05.h"
static VI pick_basis(int n) {
  VI nb; int w = sym_param("fixed", 0);
  static const int F[4][6] = {{0}, {1, 2, 3, 1, 2, 1}, {3, 1, 1, 2, 1, 2}, {2, 1, 2, 3, 1, 1}};
  if (w) return VI(F[w], F[w] + n);
  for (int i = 0; i < n; i++) nb.push_back(1 + sym_choose(nm("b", i).c_str(), sym_param("mb", 3)));
  return nb;
}
// dimer against both monomers
extern "C" void t_both() {
  int n = sym_param("n", 3), nA = sym_choose("nA", n + 1); VI nb = pick_basis(n), p = pick_perm("p", n), src = source(p, nb);
  VI A(p.begin(), p.begin() + nA), B(p.begin() + nA, p.end());
  Matrix* m = mat("c", 2, total(nb)); vector<double> old = vals(*m);
  judge_coef(*m, *unscramble_Coef(A, B, nb, m), src);
  same(*m, old, "input coefficients unchanged");
  Matrix* s = mat("s", total(nb), total(nb)); old = vals(*s);
  judge_S(*s, *unscramble_S(A, B, nb, s), src);
  same(*s, old, "input overlap unchanged");
  sym_obs_int("nA", nA); sym_reach("reordered");
}
// one assignment for all atoms (counterpoise)
extern "C" void t_one() {
  int n = sym_param("n", 3); VI nb = pick_basis(n), p = pick_perm("p", n), src = source(p, nb);
  Matrix* m = mat("c", 2, total(nb)); vector<double> old = vals(*m);
  judge_coef(*m, *unscramble_Coef(p, nb, m), src);
  same(*m, old, "input coefficients unchanged");
  Matrix* s = mat("s", total(nb), total(nb)); old = vals(*s);
  judge_S(*s, *unscramble_S(p, nb, s), src);
  same(*s, old, "input overlap unchanged");
  sym_reach("reordered by one assignment");
}

// many atoms with many functions: rotations, reversals, single moves
extern "C" void t_big() {
  int n = sym_param("n", 12), ks = sym_param("ks", 0), k = ks ? sym_choose("k", ks) * (n / ks) + 1 : sym_choose("k", n), how = sym_choose("how", 4), one = sym_choose("one", 2), nA = one ? n : (k * 5 + how) % (n + 1);
  VI nb, p; for (int i = 0; i < n; i++) { nb.push_back(how == 1 || (ks && i % 9) ? 1 : how == 2 ? 9 + i % 4 : 1 + (i * 5) % 7); p.push_back(i + 1); }
  if (how == 0) for (int i = 0; i < n; i++) p[i] = (i + k) % n + 1;
  else if (how == 1) for (int i = 0; i < n; i++) p[i] = (n - 1 - i + k) % n + 1;
  else if (how == 2) { int x = p[k]; p.erase(p.begin() + k); p.push_back(x); }
  else { int x = p[k]; p.erase(p.begin() + k); p.insert(p.begin() + n / 3, x); }
  VI src = source(p, nb), A(p.begin(), p.begin() + nA), B(p.begin() + nA, p.end());
  int t = total(nb); Matrix m(2, t), s(t, t);
  for (int i = 1; i <= t; i++) { m.set_elem(i * 0.5, 1, i); m.set_elem(-i * 3, 2, i); for (int j = 1; j <= t; j++) s.set_elem(i * 1000 + j, i, j); }
  int q = (k * 17 + how * 5) % t + 1; m.set_elem(dbl("c", -10, 10), 2, q); s.set_elem(dbl("s", -10, 10), q, t + 1 - q);
  Matrix m0 = m, s0 = s; vector<double> vm = vals(m), vs = vals(s);
  judge_coef(m0, one ? *unscramble_Coef(p, nb, &m) : *unscramble_Coef(A, B, nb, &m), src);
  judge_S(s0, one ? *unscramble_S(p, nb, &s) : *unscramble_S(A, B, nb, &s), src);
  same(m, vm, "input coefficients unchanged"); same(s, vs, "input overlap unchanged");
  sym_reach("many atoms");
}
