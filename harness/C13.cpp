// C13: ranking of orbital energies
#include "h.h"
#include "qc_functions.hpp"
using namespace catnip;
typedef std::vector<double> VD;
static void go(int na, int nb) {
  VD e; std::vector<std::string> sp;
  Matrix a(na, 1), b(nb > 0 ? nb : 0);
  if (nb > 0) b = Matrix(nb, 1);
  for (int i = 0; i < na; i++) { double x = dbl(nm("a", i), -30, 30); a.set_elem(x, i + 1, 1); e.push_back(x); sp.push_back("Alpha"); }
  for (int i = 0; i < nb; i++) { double x = dbl(nm("b", i), -30, 30); b.set_elem(x, i + 1, 1); e.push_back(x); sp.push_back("Beta"); }
  int n = na + nb;
  VD oa = vals(a), ob = nb ? vals(b) : VD();
  auto r = findRank(a, b);
  sym_check((int)r.size() == n, "every orbital has a rank");
  bool ok = true;
  for (int k = 1; k <= n; k++) if (!r.count(k)) ok = false;
  sym_check(ok, "ranks are 1..n");
  if (!ok) return;
  for (int k = 2; k <= n; k++) sym_check(r[k - 1].first <= r[k].first, "energies do not decrease with the rank");
  // multiset equality: each orbital's energy and spin appears equally often
  for (int i = 0; i < n; i++) {
    int in = 0, out = 0;
    for (int q = 0; q < n; q++) { in += sp[q] == sp[i] ? sym_ite(sym_eqd(e[q], e[i]), 1, 0) : 0; out += r[q + 1].second == sp[i] ? sym_ite(sym_eqd(r[q + 1].first, e[i]), 1, 0) : 0; }
    sym_check(in == out, "no orbital is lost, duplicated or relabelled");
  }
  VD va = vals(a), vb = nb ? vals(b) : VD();
  for (size_t i = 0; i < oa.size(); i++) sym_check_eqd(va[i], oa[i], "inputs unchanged");
  for (size_t i = 0; i < ob.size(); i++) sym_check_eqd(vb[i], ob[i], "inputs unchanged");
  for (int k = 1; k <= n; k++) sym_obs_d("e", r[k].first);
  sym_reach(nb ? "both spins" : "alpha only");
}
extern "C" void t_rank() { go(sym_param("na", 2), sym_param("nb", 1)); }
extern "C" void t_alpha() { go(1 + sym_choose("na", sym_param("max", 3)), 0); }
// many orbitals: concrete energies in several orders, beyond the small-size thresholds of sorting
extern "C" void t_many() {
  int n = sym_param("n", 20), m = sym_param("m", 20), w = sym_choose("w", 4); double x = dbl("x", -10.25, -9.75), y = dbl("y", -2.25, -1.75);
  Matrix a(n, 1), b(m, 1); VD ea, eb;
  for (int i = 0; i < n; i++) { double p = w == 0 ? i : w == 1 ? -i : w == 2 ? (i * 7) % n : i % 3; ea.push_back(p - 5); }
  for (int i = 0; i < m; i++) { double p = w == 0 ? i : w == 1 ? -i : (i * 7) % m; eb.push_back(w == 3 ? i % 3 - 5.5 : -p + 0.5); }
  ea[n / 2] = x; eb[m - 1] = y;
  for (int i = 0; i < n; i++) a.set_elem(ea[i], i + 1, 1);
  for (int i = 0; i < m; i++) b.set_elem(eb[i], i + 1, 1);
  auto r = findRank(a, b);
  sym_check((int)r.size() == n + m, "every orbital has a rank");
  bool ok = true; for (int k = 1; k <= n + m; k++) if (!r.count(k)) ok = false;
  sym_check(ok, "ranks are 1..n"); if (!ok) return;
  int na = 0; double sa = 0, sb = 0, ra = 0, rb = 0;
  for (int k = 1; k <= n + m; k++) { if (k > 1) sym_check(r[k - 1].first <= r[k].first, "energies do not decrease with the rank"); if (r[k].second == "Alpha") { na++; ra += r[k].first * r[k].first; } else rb += r[k].first * r[k].first; }
  for (int i = 0; i < n; i++) sa += ea[i] * ea[i];
  for (int i = 0; i < m; i++) sb += eb[i] * eb[i];
  sym_check(na == n, "no orbital is relabelled"); sym_check_near(ra, sa, 1e-9, "no alpha orbital is lost"); sym_check_near(rb, sb, 1e-9, "no beta orbital is lost");
  sym_obs_int("na", na);
}
