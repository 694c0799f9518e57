// C14: coefficients from pun files
#include "text.h"
static int pick(const char* n, int lo, int hi) { return lo + sym_choose(n, hi - lo + 1); }
extern "C" void t_alpha() {
  int nb = pick("nb", sym_param("lo", 1), sym_param("hi", 7)), no = pick("no", 1, sym_param("maxo", 3));
  NTab a = punVals("a", no, nb);
  file_("x.pun", punSpin("Alpha", a) + (sym_choose("tail", 2) ? "\n" : ""));
  PunReader r("x.pun"); r.read();
  sameMat(r.getCoefsMatrix("Alpha"), a, "alpha coefficient");
  sym_check(r.restrictedShell(), "alpha only");
  sym_check(rejected([&] { r.getCoefsMatrix("Beta"); }), "no beta coefficients");
  sym_reach("alpha only"); sym_obs_d("c", r.getCoefsMatrix("Alpha")->get_elem(1, 1));
}
extern "C" void t_both() {
  int nb = pick("nb", sym_param("lo", 1), sym_param("hi", 6)), no = pick("no", 1, 2), no2 = pick("no2", 1, 2);
  NTab a = punVals("a", no, nb), b = punVals("b", no2, nb);
  file_("x.7", "(5D15.8)                        \n" + punSpin("Alpha", a) + punSpin("Beta", b));
  PunReader r("x.7"); r.read();
  sameMat(r.getCoefsMatrix("Alpha"), a, "alpha coefficient");
  sameMat(r.getCoefsMatrix("Beta"), b, "beta coefficient");
  sym_check(!r.restrictedShell(), "both spins");
  sym_reach("both spins"); sym_obs_d("c", r.getCoefsMatrix("Beta")->get_elem(1, nb));
}
// every sign and exponent of one value among others
extern "C" void t_forms() {
  int nb = 7, at = sym_choose("at", nb), two = sym_choose("two", 2);
  NTab a = punVals("a", two + 1, nb);
  bool neg = sym_choose("neg", 2), en = sym_choose("eneg", 2);
  Num n = fixed("f", neg, 1, 8); char e1 = sym_char("e1", '0', '1'), e2 = sym_char("e2", '0', '9');
  n.s = padl(n.s + "D" + (en ? "-" : "+") + e1 + e2, 15);
  int e = (e1 - '0') * 10 + (e2 - '0');
  n.v = n.v * pow(10.0, (double)(en ? -e : e));
  a[two][at] = n;
  file_("x.orb", punSpin("Alpha", a));
  PunReader r("x.orb"); r.read();
  sameMat(r.getCoefsMatrix("Alpha"), a, "alpha coefficient");
  sym_reach("forms"); sym_obs_d("c", r.getCoefsMatrix("Alpha")->get_elem(two + 1, at + 1));
}
// which sections there are decides the spins
extern "C" void t_spins() {
  int na = pick("na", 0, 2), nb = pick("nb", 0, 2), w = 2;
  NTab a = punVals("a", na, w), b = punVals("b", nb, w);
  file_("x.pun", "head line\n" + punSpin("Alpha", a) + punSpin("Beta", b) + "\n");
  PunReader r("x.pun"); r.read();
  sym_check(rejected([&] { r.getCoefsMatrix("Alpha"); }) == (na == 0), "alpha exactly when listed");
  sym_check(rejected([&] { r.getCoefsMatrix("Beta"); }) == (nb == 0), "beta exactly when listed");
  if (na) sameMat(r.getCoefsMatrix("Alpha"), a, "alpha coefficient");
  if (nb) sameMat(r.getCoefsMatrix("Beta"), b, "beta coefficient");
  sym_obs_int("x", na * 10 + nb); sym_reach("spins");
}
// a long file with known digits everywhere but in one place
extern "C" void t_big() {
  int nb = sym_param("nb", 52), no = sym_param("no", 12), both = sym_param("both", 1); plainDigits = true; NTab a = punVals("a", no, nb), b = punVals("bb", no, nb); plainDigits = false;
  int o = sym_choose("at", 3), c = sym_choose("col", 4), s = both ? sym_choose("spin", 2) : 0; o = o == 0 ? 0 : o == 1 ? no / 2 : no - 1; c = c == 0 ? 0 : c == 1 ? nb / 2 : c == 2 ? nb - 2 : nb - 1;
  (s ? b : a)[o][c] = fort("x", sym_choose("neg", 2), 1, 8, -1, 15);
  file_("x.pun", "(5D15.8)\n" + punSpin("Alpha", a) + (both ? punSpin("Beta", b) : ""));
  PunReader r("x.pun"); r.read(); sameMat(r.getCoefsMatrix("Alpha"), a, "alpha coefficient"); if (both) sameMat(r.getCoefsMatrix("Beta"), b, "beta coefficient");
  sym_obs_d("c", r.getCoefsMatrix(s ? "Beta" : "Alpha")->get_elem(o + 1, c + 1)); sym_reach("long file");
}

// many files in one process
extern "C" void t_often() {
  int k = sym_param("files", 9), n = pick("n", 1, 6), beta = sym_choose("beta", 2); plainDigits = true; NTab p = punVals("p", 2, 4), q = punVals("q", 1, 7); plainDigits = false; NTab a = punVals("a", 2, n), b = punVals("b", 1, n);
  for (int i = 0; i < k; i++) { file_("w.pun", punSpin("Alpha", i % 2 ? p : q) + punSpin("Beta", q)); PunReader w("w.pun"); w.read(); sameMat(w.getCoefsMatrix("Alpha"), i % 2 ? p : q, "alpha coefficient"); sameMat(w.getCoefsMatrix("Beta"), q, "beta coefficient"); }
  file_("x.pun", punSpin("Alpha", a) + (beta ? punSpin("Beta", b) : "")); PunReader r("x.pun"); r.read(); sameMat(r.getCoefsMatrix("Alpha"), a, "alpha coefficient");
  if (beta) sameMat(r.getCoefsMatrix("Beta"), b, "beta coefficient"); else sym_check(r.restrictedShell(), "alpha only");
  sym_obs_d("c", r.getCoefsMatrix("Alpha")->get_elem(1, 1)); sym_reach("many files");
}

// two files read by two readers in any order, one of them possibly read again
extern "C" void t_two() {
  int n1 = pick("n1", 1, 6), n2 = pick("n2", 1, 3), first = sym_choose("first", 2), again = sym_choose("again", 3), beta1 = sym_choose("beta1", 2), beta2 = sym_choose("beta2", 2);
  NTab a1 = punVals("a", 2, n1), b1 = punVals("b", 1, n1), a2 = punVals("c", 1, n2), b2 = punVals("d", 3, n2);
  file_("x.pun", punSpin("Alpha", a1) + (beta1 ? punSpin("Beta", b1) : "")); file_("y.7", punSpin("Alpha", a2) + (beta2 ? punSpin("Beta", b2) : "") + "\n");
  PunReader x("x.pun"), y("y.7"); if (first) { x.read(); y.read(); } else { y.read(); x.read(); }
  if (again == 1) x.read(); if (again == 2) y.read();
  sameMat(x.getCoefsMatrix("Alpha"), a1, "alpha coefficient of the first file"); sameMat(y.getCoefsMatrix("Alpha"), a2, "alpha coefficient of the second file");
  sym_check(x.restrictedShell() == !beta1 && y.restrictedShell() == !beta2, "spins of each file");
  if (beta1) sameMat(x.getCoefsMatrix("Beta"), b1, "beta coefficient of the first file"); if (beta2) sameMat(y.getCoefsMatrix("Beta"), b2, "beta coefficient of the second file");
  sym_obs_d("c", x.getCoefsMatrix("Alpha")->get_elem(1, 1)); sym_reach("two files");
}
