// C01: the transfer integral formula
#include "qc.h"
extern "C" void t_cp() {
  int nb = sym_param("nb", 2), no = sym_param("no", 2); double l = lim(nb, no);
  run(1, nb, nb, nb, no, tab("a", 1, nb, -l, l), tab("b", 1, nb, -l, l), tab("p", no, nb, -l, l), tab("s", nb, nb, -1, 1), tab("e", 1, no, -20, 20)[0], 1, 1, "HOMO", 0, "HOMO", 0, 0, 0);
}
extern "C" void t_noncp() {
  int n1 = sym_param("n1", 1), n2 = sym_param("n2", 1), nb = n1 + n2, no = sym_param("no", nb); double l = lim(nb, no);
  run(0, n1, n2, nb, no, tab("a", 1, n1, -l, l), tab("b", 1, n2, -l, l), tab("p", no, nb, -l, l), tab("s", nb, nb, -1, 1), tab("e", 1, no, -20, 20)[0], 1, 1, "HOMO", 0, "HOMO", 0, 0, 0);
}

// a larger basis: given values everywhere, symbolic ones at chosen places
static Tab given(int r, int c, double scale, int seed) { Tab t(r, vector<double>(c)); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) t[i][j] = ((i * 7 + j * 5 + seed * 3) % 17 - 8) * scale; return t; }
extern "C" void t_big() {
  int n1 = sym_param("n1", 9), n2 = sym_param("n2", 8), no = sym_param("no", 12), cp = sym_choose("cp", 2), nb = n1 + n2, at = sym_choose("at", 3); 
  int w1 = cp ? nb : n1, w2 = cp ? nb : n2;
  Tab a = given(1, w1, 0.015625, 1), b = given(1, w2, 0.015625, 2), P = given(no, nb, 0.015625, 3), S = given(nb, nb, 0.00390625, 4); vector<double> E = given(1, no, 0.5, 5)[0];
  for (int i = 0; i < nb; i++) S[i][i] = 1;
  int q = at == 0 ? 0 : at == 1 ? nb / 2 : nb - 1, k = at == 0 ? 0 : at == 1 ? no / 2 : no - 1;
  a[0][q * (w1 - 1) / (nb - 1)] = dbl("a", -0.125, 0.125); E[k] = dbl("e", -4, 4); 
  run(cp, n1, cp ? nb : n2, nb, no, a, b, P, S, E, 1, 1, "HOMO", 0, "HOMO", 0, 0, 0);
  sym_reach("large basis");
}
// orbitals that overlap strongly, in either direction
extern "C" void t_strong() {
  int cp = sym_choose("cp", 2); double x = dbl("x", -0.9375, 0.9375); vector<double> E = {-0.5, 0.25};
  if (cp) run(1, 2, 2, 2, 2, {{1, 0}}, {{x, 0.25}}, {{1, 0}, {0, 1}}, {{1, 0}, {0, 1}}, E, 1, 1, "HOMO", 0, "HOMO", 0, 0, 0);
  else run(0, 1, 1, 2, 2, {{1}}, {{x}}, {{1, 0}, {0, 0}}, {{1, 1}, {1, 1}}, E, 1, 1, "HOMO", 0, "HOMO", 0, 0, 0);
  sym_reach("strong overlap");
}
// both monomers are one and the same calculation
extern "C" void t_same() {
  int cp = sym_choose("cp", 2), n = 2, nb = cp ? n : 2 * n, no = 2, o1 = sym_choose("o1", 2), o2 = sym_choose("o2", 2); double l = lim(nb, no);
  Tab c = tab("c", 2, n, -l, l), P = tab("p", no, nb, -l, l), S = tab("s", nb, nb, -1, 1); vector<double> E = tab("e", 1, no, -20, 20)[0];
  Matrix *m = mk(c), *mp = mk(P), *ms = mk(S), *me = mkcol(E);
  vector<double> a = cp ? c[o1] : pad(c[o1], 0, nb), b = cp ? c[o2] : pad(c[o2], n, nb); Ref r = reference(a, b, P, S, E);
  TransferComplex tc(m, m, mp, {2, 1}, {2, 1}, ms, me, cp); sym_out_clear();
  if (cp && o1 == o2) return;   // the overlap with itself
  double J = tc.calcJ(types(o1 ? "LUMO" : "HOMO", o2 ? "LUMO" : "HOMO"), nums(0, 0)); judge(r, J);
  for (int i = 0; i < 2; i++) for (int j = 0; j < n; j++) sym_check_eqd(m->get_elem(i + 1, j + 1), c[i][j], "coefficients unchanged");
  sym_obs_d("J", J); sym_reach("one monomer twice");
}
// several calculations in one process: each is of the values its matrices hold then
extern "C" void t_again() {
  int cp = sym_choose("cp", 2), w = cp ? 2 : 1, o1 = sym_choose("o1", 2), o2 = sym_choose("o2", 2), k = sym_param("before", 5); double l = lim(2, 2);
  Tab a(2, vector<double>(w)), b = a, P(2, vector<double>(2)), S = P; vector<double> E(2);
  Matrix m1(2, w), m2(2, w), mp(2, 2), ms(2, 2), me(2, 1);
  for (int q = 0; q <= k; q++) {
    if (q == k) { a = tab("a", 2, w, -l, l); b = tab("b", 2, w, -l, l); P = tab("p", 2, 2, -l, l); S = tab("s", 2, 2, -1, 1); E = tab("e", 1, 2, -20, 20)[0]; }
    else for (int i = 0; i < 2; i++) { E[i] = q - 2 * i + 0.5; for (int j = 0; j < 2; j++) { P[i][j] = (i + 2 * j + q) * 0.03125; S[i][j] = i == j ? 1 : 0.25; if (j < w) { a[i][j] = 0.0625 * (q + i + j + 1); b[i][j] = 0.03125 * (q - i - 3 * j); } } }
    for (int i = 0; i < 2; i++) { me.set_elem(E[i], i + 1, 1); for (int j = 0; j < 2; j++) { mp.set_elem(P[i][j], i + 1, j + 1); ms.set_elem(S[i][j], i + 1, j + 1); if (j < w) { m1.set_elem(a[i][j], i + 1, j + 1); m2.set_elem(b[i][j], i + 1, j + 1); } } }
    TransferComplex tc(&m1, &m2, &mp, {2, 1}, {2, 1}, &ms, &me, cp); sym_out_clear();
    double J = tc.calcJ(types(o1 ? "LUMO" : "HOMO", o2 ? "LUMO" : "HOMO"), nums(0, 0));
    Ref r = reference(cp ? a[o1] : pad(a[o1], 0, 2), cp ? b[o2] : pad(b[o2], 1, 2), P, S, E);
    if (q == k) judge(r, J); else sym_check_near(J, r.num / r.den, 1e-11, "J_eff is the projected transfer integral");
    sym_obs_d("J", J);
  }
  sym_reach("several calculations");
}
