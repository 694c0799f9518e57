// C03: orbital selection
#include "qc.h"
static const char* TY[] = {"HOMO", "LUMO", "homo", "", "HOMOLUMO", "HOM", "LUMO+"};
// the row an orbital request means, 0 when it has to be refused
static int want(const char* t, int k, int homo, int total) {
  for (int r = 1; r <= total; r++) {
    if (!strcmp(t, "HOMO") && r <= homo && k == r - homo) return r;
    if (!strcmp(t, "LUMO") && r > homo && k == r - homo - 1) return r;
  }
  return 0;
}
static void sel(int n1, int h1, int n2, int h2, const char* t1, const char* t2, int k1, int k2) {
  Tab c1(n1, vector<double>(2)), c2(n2, vector<double>(2));
  for (int i = 0; i < n1; i++) { c1[i][0] = dbl(nm("a", i), 0.01, 0.5); c1[i][1] = 0; }
  for (int i = 0; i < n2; i++) { c2[i][0] = 0; c2[i][1] = dbl(nm("b", i), 0.01, 0.5); }
  Tab P = {{1, 0}, {0, 1}}, S = {{1, 0}, {0, 1}};
  vector<double> E = {1, 2};
  TransferComplex tc(mk(c1), mk(c2), mk(P), {n1, h1}, {n2, h2}, mk(S), mkcol(E), 1);
  sym_out_clear();
  int o = outcome([&] { tc.calcJ(types(t1, t2), nums(k1, k2)); });
  int r1 = want(t1, k1, h1, n1), r2 = want(t2, k2, h2, n2);
  sym_check((o == 0) == (r1 > 0 && r2 > 0), "accepted exactly when both orbitals exist");
  sym_obs_int("o", o);
  if (o) { sym_check(!sym_out_contains("J_eff"), "nothing printed when refused"); sym_reach("refused"); return; }
  if (r1 > 0 && r2 > 0) {
    double x = c1[r1 - 1][0], y = c2[r2 - 1][1];
    sym_check_near(shown("e_a", "e_a printed"), x * x * 27.2114, 1e-5, "orbital of the first monomer");
    sym_check_near(shown("e_b", "e_b printed"), y * y * 2 * 27.2114, 1e-5, "orbital of the second monomer");
    sym_reach("selected");
  }
}
// one monomer varies completely, the other stays at its HOMO
extern "C" void t_first() {
  int n = 1 + sym_choose("n", sym_param("max", 4)), h = sym_choose("h", n + 1), t = sym_choose("t", 7);
  sel(n, h, 2, 1, TY[t], "HOMO", sym_int("k", INT_MIN, INT_MAX), 0);
}
extern "C" void t_second() {
  int n = 1 + sym_choose("n", sym_param("max", 4)), h = sym_choose("h", n + 1), t = sym_choose("t", 7);
  sel(2, 1, n, h, "LUMO", TY[t], 0, sym_int("k", INT_MIN, INT_MAX));
}
// both vary
extern "C" void t_both() {
  int n1 = sym_param("n1", 3), n2 = sym_param("n2", 2), h1 = sym_choose("h1", n1 + 1), h2 = sym_choose("h2", n2 + 1);
  sel(n1, h1, n2, h2, TY[sym_choose("t1", 2)], TY[sym_choose("t2", 2)], sym_int("k1", INT_MIN, INT_MAX), sym_int("k2", INT_MIN, INT_MAX));
}
// many orbitals: sizes beyond ten
extern "C" void t_many() {
  int n = sym_param("n", 12), h = sym_param("h", 7), t = sym_choose("t", 2);
  sel(n, h, n, h, TY[t], TY[1 - t], sym_int("k1", INT_MIN, INT_MAX), sym_int("k2", t ? 0 : -20, t ? 0 : 20));
}
// a request that does not name both monomers is refused
extern "C" void t_missing() {
  int w = sym_choose("w", 4);
  Tab c = {{1, 0}, {0, 1}};
  TransferComplex tc(mk(c), mk(c), mk(c), {2, 1}, {2, 1}, mk(c), mkcol({1, 2}), 1);
  map<string, string> t = types("HOMO", "LUMO"); map<string, int> n = nums(0, 0);
  if (w == 0) t.erase("mon1"); if (w == 1) t.erase("mon2"); if (w == 2) n.erase("mon1"); if (w == 3) n.erase("mon2");
  int o = outcome([&] { tc.calcJ(t, n); });
  sym_check(o != 0, "incomplete request refused");
  sym_obs_int("o", o);
}

// one complex asked several times: every answer is for its own request, and asking changes nothing
extern "C" void t_again() {
  int n = 3, h = 2, cp = sym_choose("cp", 2), refused = sym_choose("refused", 2); 
  Tab c1(n, vector<double>(cp ? 2 : 1)), c2 = c1; vector<double> x, y;
  for (int i = 0; i < n; i++) { x.push_back(dbl(nm("a", i), 0.01, 0.5)); y.push_back(dbl(nm("b", i), 0.01, 0.5)); c1[i][0] = x[i]; c2[i][cp ? 1 : 0] = y[i]; }
  Tab P = {{1, 0}, {0, 1}}, S = P; Matrix *m1 = mk(c1), *m2 = mk(c2), *mp = mk(P), *ms = mk(S), *me = mkcol({1, 2}); vector<double> v1 = vals(*m1), v2 = vals(*m2), vp = vals(*mp), vs = vals(*ms), ve = vals(*me);
  TransferComplex tc(m1, m2, mp, {n, h}, {n, h}, ms, me, cp);
  for (int q = 0; q < 3; q++) {
    int a = sym_choose(nm("a_row", q).c_str(), 3), b = (a * 2 + q + sym_choose(nm("b_row", q).c_str(), 2)) % 3;
    if (q == 1 && refused) { int o = outcome([&] { tc.calcJ(types("LUMO", "HOMO"), nums(1, 0)); }); sym_check(o != 0, "request outside refused"); }
    sym_out_clear(); double J = tc.calcJ(types(a < h ? "HOMO" : "LUMO", b < h ? "HOMO" : "LUMO"), nums(a < h ? a - h + 1 : 0, b < h ? b - h + 1 : 0));
    sym_check_near(shown("e_a", "e_a printed"), x[a] * x[a] * 27.2114, 1e-5, "orbital of the first monomer of this request");
    sym_check_near(shown("e_b", "e_b printed"), y[b] * y[b] * 2 * 27.2114, 1e-5, "orbital of the second monomer of this request");
    sym_obs_d("J", J);
  }
  auto keep = [](const Matrix& m, const vector<double>& v) { vector<double> w = vals(m); sym_check(w.size() == v.size(), "sizes of the inputs unchanged"); for (size_t i = 0; i < v.size() && i < w.size(); i++) sym_check_eqd(w[i], v[i], "inputs unchanged"); };
  keep(*m1, v1); keep(*m2, v2); keep(*mp, vp); keep(*ms, vs); keep(*me, ve); sym_reach("again");
}
