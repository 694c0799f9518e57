// C18: basis functions per atom
#include "text.h"
static int pick(const char* n, int lo, int hi) { return lo + sym_choose(n, hi - lo + 1); }
static const char* EL[] = {"C", "H", "Cl", "N", "Br", "O", "H", "S", "Si", "F", "H", "C", "Zn", "H"};
static void same(LogReader& r, const vector<int>& n) {
  vector<int> b = r.getBasisFuncCount();
  sym_check(b.size() == n.size(), "a count for every atom");
  for (size_t i = 0; i < n.size() && i < b.size(); i++) sym_check(b[i] == n[i], "count of the atom");
}
extern "C" void t_read() {
  int atoms = pick("atoms", 1, sym_param("max", 3)), shift = sym_choose("shift", 2), mx = sym_param("maxf", 5); vector<int> n; vector<const char*> e;
  for (int i = 0; i < atoms; i++) { n.push_back(pick(nm("n", i).c_str(), 1, mx)); e.push_back(EL[i + shift * 2]); }
  file_("x.log", " head\n" + popText(n, e.data(), "p") + "              1\n end\n");
  LogReader r("x.log"); r.read(); same(r, n);
  sym_obs_int("n", n[0]); sym_reach("counts");
}
// more than nine atoms and functions
extern "C" void t_many() {
  int atoms = pick("atoms", 9, 13); vector<int> n;
  for (int i = 0; i < atoms; i++) n.push_back(i == atoms - 2 ? pick("k", 1, 18) : 1 + (i * 7) % 5);
  file_("x.log", popText(n, EL, "p", false));
  LogReader r("x.log"); r.read(); same(r, n);
  sym_obs_int("n", n[0]); sym_reach("many");
}
// numbers of three and four digits
extern "C" void t_big() {
  int atoms = sym_param("atoms", 120), f = sym_param("f", 9), at = sym_choose("at", 4), k = 1 + 4 * sym_choose("k", 5); vector<int> n; vector<const char*> e;
  for (int i = 0; i < atoms; i++) { n.push_back(1 + (i * 7) % f); e.push_back(EL[i % 14]); }
  n[at == 0 ? 0 : at == 1 ? atoms / 2 : at == 2 ? 98 : atoms - 1] = k;
  file_("x.log", popText(n, e.data(), "p", false)); LogReader r("x.log"); r.read(); same(r, n);
  sym_obs_int("n", n[0]); sym_reach("large");
}

// one atom with very many functions
extern "C" void t_wide() {
  int at = sym_choose("at", 3), k = sym_choose("k", 3); vector<int> n = {3, 1, 5};
  n[at] = k == 0 ? 65 : k == 1 ? 130 : 257;
  file_("x.log", popText(n, EL, "p", false)); LogReader r("x.log"); r.read(); same(r, n);
  sym_obs_int("n", n[at]); sym_reach("many functions");
}
// many files read in one process
extern "C" void t_often() {
  int k = sym_param("files", 9); vector<int> n;
  for (int i = 0; i < k; i++) { n = {1 + i % 3, 2}; if (i % 2) n.push_back(1); file_("w.log", popText(n, EL, "p", false)); LogReader w("w.log"); w.read(); same(w, n); }
  n[0] = pick("n", 1, 4); file_("x.log", popText(n, EL + 1, "q")); LogReader r("x.log"); r.read(); same(r, n);
  sym_obs_int("n", n[0]); sym_reach("many files");
}

// two files read by two readers in any order, one of them possibly read again
extern "C" void t_two() {
  int m = pick("m", 1, 3), first = sym_choose("first", 2), again = sym_choose("again", 3); vector<int> n, k = {2, 1, 4};
  for (int i = 0; i < m; i++) n.push_back(pick(nm("n", i).c_str(), 1, 3));
  file_("x.log", popText(n, EL, "p") + " end\n"); file_("y.log", popText(k, EL + 2, "q") + " end\n");
  LogReader x("x.log"), y("y.log"); if (first) { x.read(); y.read(); } else { y.read(); x.read(); }
  if (again == 1) x.read(); if (again == 2) y.read();
  same(x, n); same(y, k); sym_obs_int("n", n[0]); sym_reach("two files");
}
