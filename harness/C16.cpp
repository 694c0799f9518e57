// C16: the overlap matrix
#include "text.h"
static int pick(const char* n, int lo, int hi) { return lo + sym_choose(n, hi - lo + 1); }
extern "C" void t_read() {
  int n = pick("n", sym_param("lo", 1), sym_param("hi", 8));
  NTab s = ovVals("s", n);
  file_("x.log", string(sym_choose("head", 2) ? " head line\n" : "") + overlapText(s) + " end\n");
  LogReader r("x.log"); r.read();
  sameOverlap(r.getOverlapMatrix(), s);
  sym_obs_d("s", r.getOverlapMatrix()->get_elem(n, 1)); sym_reach("overlap");
}
extern "C" void t_none() {
  int k = sym_choose("k", 2); vector<Num> o = energies("o", 3, 0, true), v;
  file_("x.log", string(" *** Kinetic Energy ***\n") + (k ? energyLines("Alpha", o, v) + " end\n" : ""));
  LogReader r("x.log"); r.read();
  sym_check(rejected([&] { r.getOverlapMatrix(); }), "missing overlap matrix reported");
  sym_obs_int("k", k); sym_reach("no overlap");
}
// every sign and exponent of one value among others, and the sections around it
extern "C" void t_forms() {
  int n = 6, i = sym_choose("i", n), j = sym_choose("j", n);
  if (j > i) { sym_obs_d("s", 0); return; }
  NTab s = ovVals("s", n);
  bool neg = sym_choose("neg", 2), en = sym_choose("eneg", 2);
  Num f = fixed("f", neg, 1, 6); char e1 = sym_char("e1", '0', '1'), e2 = sym_char("e2", '0', '9');
  f.s = padl(f.s + "D" + (en ? "-" : "+") + e1 + e2, 14);
  int e = (e1 - '0') * 10 + (e2 - '0');
  f.v = f.v * pow(10.0, (double)(en ? -e : e));
  s[i][j] = f;
  vector<Num> o = energies("o", 2, 0, true), v = energies("v", 1, 0, false); NTab c = coords("c", 2);
  file_("x.log", coordText(c) + overlapText(s) + energyLines("Alpha", o, v) + " end\n");
  LogReader r("x.log"); r.read();
  sameOverlap(r.getOverlapMatrix(), s); sameEnergies(r, "Alpha", o, v); sameCoords(r, c);
  sym_obs_d("s", r.getOverlapMatrix()->get_elem(i + 1, j + 1)); sym_reach("forms");
}
// a large matrix with known digits everywhere but in one place
extern "C" void t_big() {
  int n = sym_param("n", 27); plainDigits = true; NTab s = ovVals("s", n); plainDigits = false;
  int few = sym_param("few", 0), i = few ? 3 : sym_choose("i", 4), j = few ? 1 : sym_choose("j", 3); i = i == 0 ? n / 3 : i == 1 ? n / 2 : i == 2 ? n - 2 : n - 1; j = j == 0 ? 0 : j == 1 ? i / 2 : i;
  s[i][j] = fort("x", sym_choose("neg", 2), 1, 6, -1, 14);
  file_("x.log", overlapText(s) + " end\n"); LogReader r("x.log"); r.read(); sameOverlap(r.getOverlapMatrix(), s);
  sym_obs_d("s", r.getOverlapMatrix()->get_elem(i + 1, j + 1)); sym_reach("large matrix");
}

// many files in one process
extern "C" void t_often() {
  int k = sym_param("files", 9), n = pick("n", 1, 6); plainDigits = true; NTab t = ovVals("t", 6), u = ovVals("u", 3); plainDigits = false; NTab s = ovVals("s", n);
  for (int i = 0; i < k; i++) { file_("w.log", overlapText(i % 2 ? t : u) + " end\n"); LogReader w("w.log"); w.read(); sameOverlap(w.getOverlapMatrix(), i % 2 ? t : u); }
  file_("x.log", overlapText(s) + " end\n"); LogReader r("x.log"); r.read(); sameOverlap(r.getOverlapMatrix(), s);
  sym_obs_d("s", r.getOverlapMatrix()->get_elem(n, 1)); sym_reach("many files");
}

// two files read by two readers in any order, one of them possibly read again
extern "C" void t_two() {
  int n1 = pick("n1", 1, 6), n2 = pick("n2", 0, 3), first = sym_choose("first", 2), again = sym_choose("again", 3); NTab s = ovVals("s", n1), t = ovVals("t", n2 ? n2 : 1);
  file_("x.log", overlapText(s) + " end\n"); file_("y.log", (n2 ? overlapText(t) : string(" nothing\n")) + " end\n");
  LogReader x("x.log"), y("y.log"); if (first) { x.read(); y.read(); } else { y.read(); x.read(); }
  if (again == 1) x.read(); if (again == 2) y.read();
  sameOverlap(x.getOverlapMatrix(), s); if (n2) sameOverlap(y.getOverlapMatrix(), t); else sym_check(rejected([&] { y.getOverlapMatrix(); }), "missing overlap matrix reported");
  sameOverlap(x.getOverlapMatrix(), s);
  sym_obs_d("s", x.getOverlapMatrix()->get_elem(n1, 1)); sym_reach("two files");
}
