// C17: atom positions
#include "text.h"
static int pick(const char* n, int lo, int hi) { return lo + sym_choose(n, hi - lo + 1); }
extern "C" void t_read() {
  int n = pick("n", sym_param("lo", 1), sym_param("hi", 5)), in = sym_choose("input", 2);
  NTab c = coords("c", n);
  file_("x.log", " head line\n" + coordText(c, in) + " end\n");
  LogReader r("x.log"); r.read(); sameCoords(r, c);
  sym_obs_d("c", r.getCoords()[2][n - 1]); sym_reach("positions");
}
extern "C" void t_last() {
  int k = pick("listings", 2, 3), n1 = pick("n1", 1, 3), n2 = pick("n2", 1, 3), a = sym_choose("a", 2), b = sym_choose("b", 2);
  NTab c1 = coords("c", n1), c2 = coords("d", n2), c3 = coords("e", 2);
  string t = (k == 3 ? coordText(c3, b) : string()) + coordText(c1, a) + " text between\n" + coordText(c2, b) + " end\n";
  file_("x.log", t);
  LogReader r("x.log"); r.read(); sameCoords(r, c2);
  sym_obs_d("c", r.getCoords()[0][0]); sym_reach("last listing");
}
// signs, widths and columns of one atom
extern "C" void t_forms() {
  int at = sym_choose("at", 3); NTab c = coords("c", 3);
  for (int k = 0; k < 3; k++) c[at][k] = fixed(nm("f", k), sym_choose(nm("neg", k).c_str(), 2), 1 + sym_choose(nm("id", k).c_str(), 3), 6, 12);
  file_("x.log", coordText(c));
  LogReader r("x.log"); r.read(); sameCoords(r, c);
  sym_obs_d("c", r.getCoords()[0][at]); sym_reach("forms");
}
// many atoms, several listings, known digits everywhere but in one place
extern "C" void t_big() {
  int n = sym_param("n", 104), few = sym_param("few", 0), k = few ? 1 : sym_choose("listings", 3), at = few ? 2 : sym_choose("at", 3), c = sym_choose("axis", 3); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
  plainDigits = true; NTab x = coords("c", n), y = coords("dd", n); plainDigits = false;
  x[at][c] = fixed("x", sym_choose("neg", 2), 3, 6, 12); string t;
  for (int i = 0; i < k; i++) t += coordText(y, i % 2) + " text between\n";
  file_("x.log", t + coordText(x, k % 2) + " end\n"); LogReader r("x.log"); r.read(); sameCoords(r, x);
  sym_obs_d("c", r.getCoords()[c][at]); sym_reach("many atoms");
}

// many listings in one file and many files in one process: nothing of the earlier ones is left
extern "C" void t_often() {
  int k = sym_param("files", 9), n = pick("n", 1, 4), in = sym_choose("input", 2); NTab c = coords("c", n), d = coords("d", 2); string t;
  for (int i = 0; i < k; i++) { t += coordText(d, i % 2) + " text\n"; file_("w.log", t); LogReader w("w.log"); w.read(); sameCoords(w, d); }
  file_("x.log", t + coordText(c, in) + " end\n"); LogReader r("x.log"); r.read(); sameCoords(r, c);
  sym_obs_d("c", r.getCoords()[2][n - 1]); sym_reach("many listings");
}

// two files read by two readers in any order, one of them possibly read again
extern "C" void t_two() {
  int n1 = pick("n1", 1, 3), n2 = pick("n2", 0, 3), first = sym_choose("first", 2), again = sym_choose("again", 3); NTab c = coords("c", n1), d = coords("d", n2);
  file_("x.log", coordText(c) + " end\n"); file_("y.log", (n2 ? coordText(d, true) : string(" nothing\n")) + " end\n");
  LogReader x("x.log"), y("y.log"); if (first) { x.read(); y.read(); } else { y.read(); x.read(); }
  if (again == 1) x.read(); if (again == 2) y.read();
  sameCoords(x, c); if (n2) sameCoords(y, d); else sym_check(y.getCoords().empty(), "no positions");
  sym_obs_d("c", x.getCoords()[2][n1 - 1]); sym_reach("two files");
}
