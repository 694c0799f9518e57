// C15: orbital energies from log files
#include "text.h"
static int pick(const char* n, int lo, int hi) { return lo + sym_choose(n, hi - lo + 1); }
// one listing: every count, separated or joined columns, positive and negative unoccupied energies
extern "C" void t_one() {
  int no = pick("no", sym_param("lo", 1), sym_param("hi", 7)), nv = pick("nv", 0, sym_param("maxv", 6)), so = sym_param("style", 0), neg = sym_choose("virtneg", 2);
  vector<Num> o = energies("o", no, so, true), v = energies("v", nv, neg ? so : 0, neg);
  file_("x.log", " The electronic state is 1-A.\n" + energyLines("Alpha", o, v) + "          Condensed to atoms (all electrons):\n");
  LogReader r("x.log"); r.read();
  sameEnergies(r, "Alpha", o, v);
  sym_check(rejected([&] { r.getOE("Beta"); }), "no beta energies");
  sym_obs_d("e", r.getOE("Alpha").at(0)); sym_reach("one spin");
}
extern "C" void t_both() {
  int no = pick("no", 1, 6), nv = pick("nv", 0, 2), mo = pick("mo", 1, 3), mv = pick("mv", 0, 6), s = sym_param("style", 2);
  vector<Num> o = energies("o", no, s, true), v = energies("v", nv, 0, false), p = energies("p", mo, s, true), w = energies("w", mv, s, true);
  file_("x.log", energyLines("Alpha", o, v) + energyLines("Beta", p, w) + "\n");
  LogReader r("x.log"); r.read();
  sameEnergies(r, "Alpha", o, v); sameEnergies(r, "Beta", p, w);
  sym_obs_d("e", r.getOE("Beta").at(0)); sym_reach("both spins");
}
// several listings, the last one counts
extern "C" void t_last() {
  int no = pick("no", 1, 6), nv = pick("nv", 0, 2), mo = pick("mo", 1, 6), mv = pick("mv", 0, 2), beta = sym_choose("beta", 2), gap = sym_choose("gap", 2);
  vector<Num> o = energies("o", no, 0, true), v = energies("v", nv, 0, true), p = energies("p", mo, 0, true), w = energies("w", mv, 0, false);
  string t = energyLines("Alpha", o, v) + (beta ? energyLines("Beta", p, w) : "") + " some text\n" + (gap ? "\n more\n" : "") + energyLines("Alpha", p, w) + (beta ? energyLines("Beta", o, v) : "") + " end\n";
  file_("x.log", t);
  LogReader r("x.log"); r.read();
  sameEnergies(r, "Alpha", p, w); if (beta) sameEnergies(r, "Beta", o, v);
  sym_obs_d("e", r.getOE("Alpha").at(0)); sym_reach("last listing");
}
// the section that follows at once is not lost
extern "C" void t_next() {
  int no = pick("no", 1, 5), nv = pick("nv", 0, 5), which = sym_choose("next", 2);
  vector<Num> o = energies("o", no, 0, true), v = energies("v", nv, 0, true); NTab c = coords("c", 2), s = ovVals("s", 2);
  string t = coordText(c); t = t.substr(t.find(" Center"));
  file_("x.log", energyLines("Alpha", o, v) + (which ? t : overlapText(s)) + " end\n");
  LogReader r("x.log"); r.read();
  sameEnergies(r, "Alpha", o, v);
  if (which) sameCoords(r, c); else sameOverlap(r.getOverlapMatrix(), s);
  sym_obs_d("e", r.getOE("Alpha").at(0)); sym_reach("next section");
}
// any subset of the columns of a line joined to the column before
extern "C" void t_joined() {
  int no = pick("no", sym_param("lo", 1), sym_param("hi", 5)), nv = sym_param("nv", 1), mask = sym_choose("mask", 1 << (no < 5 ? no : 5)); vector<Num> o, v = energies("v", nv, 0, false);
  for (int i = 0; i < no; i++) o.push_back(energy(nm("o", i), true, mask >> (i % 5) & 1));
  file_("x.log", " The electronic state is 1-A.\n" + energyLines("Alpha", o, v) + energyLines("Beta", o, v) + "          Condensed to atoms (all electrons):\n");
  LogReader r("x.log"); r.read();
  sameEnergies(r, "Alpha", o, v); sameEnergies(r, "Beta", o, v);
  sym_obs_d("e", r.getOE("Alpha").at(0)); sym_reach("one spin");
}
// long lists with known digits everywhere but in one place
extern "C" void t_big() {
  int no = sym_param("no", 103), nv = sym_param("nv", 41), both = sym_choose("both", 2), at = sym_choose("at", 6), neg = sym_choose("neg", 2);
  plainDigits = true; vector<Num> o = energies("o", no, 0, true), v = energies("v", nv, 0, neg), p = energies("pp", no - 1, 0, true), w = energies("w", nv + 1, 0, false); plainDigits = false;
  vector<Num>& l = at < 3 ? o : v; int n = (int)l.size(), i = at % 3 == 0 ? 0 : at % 3 == 1 ? n / 2 : n - 1; l[i] = energy("x", at < 3 || neg, sym_choose("wide", 2) && (at < 3 || neg));
  file_("x.log", " The electronic state is 1-A.\n" + energyLines("Alpha", o, v) + (both ? energyLines("Beta", p, w) : string()) + "          Condensed to atoms (all electrons):\n");
  LogReader r("x.log"); r.read(); sameEnergies(r, "Alpha", o, v); if (both) sameEnergies(r, "Beta", p, w);
  sym_obs_d("e", r.getOE("Alpha").at(at < 3 ? i : no + i)); sym_reach("long lists");
}

// many listings in one file and many files in one process: nothing of the earlier ones is left
extern "C" void t_often() {
  int k = sym_param("files", 5), no = pick("no", 1, 6), beta = sym_choose("beta", 2); vector<Num> o = energies("o", no, 0, true), v = energies("v", 1, 0, false), p = energies("p", 2, 0, true), w = energies("w", 3, 0, false); string t;
  for (int i = 0; i < k; i++) {
    string one = energyLines("Alpha", i % 2 ? p : o, i % 3 ? v : w) + energyLines("Beta", w, p) + " text\n"; t += one;
    file_("w.log", one); LogReader r("w.log"); r.read(); sameEnergies(r, "Alpha", i % 2 ? p : o, i % 3 ? v : w); sameEnergies(r, "Beta", w, p);
  }
  file_("x.log", t + energyLines("Alpha", o, v) + (beta ? energyLines("Beta", p, v) : "") + " end\n"); LogReader r("x.log"); r.read();
  sameEnergies(r, "Alpha", o, v); sameEnergies(r, "Beta", beta ? p : w, beta ? v : p);
  sym_obs_d("e", r.getOE("Alpha").at(0)); sym_reach("many listings");
}

// two files read by two readers in any order, one of them possibly read again
extern "C" void t_two() {
  int no = pick("no", 1, 6), nv = pick("nv", 0, 1), mo = pick("mo", 1, 2), first = sym_choose("first", 2), again = sym_choose("again", 4), b1 = sym_choose("b1", 2), b2 = sym_choose("b2", 2);
  vector<Num> o = energies("o", no, 0, true), v = energies("v", nv, 0, false), p = energies("p", mo, 2, true), w = energies("w", 2, 0, false);
  file_("x.log", energyLines("Alpha", o, v) + (b1 ? energyLines("Beta", p, v) : "") + " end\n"); file_("y.log", energyLines("Alpha", p, w) + (b2 ? energyLines("Beta", o, w) : "") + "\n");
  LogReader x("x.log"), y("y.log"); if (first) { x.read(); y.read(); } else { y.read(); x.read(); }
  if (again == 1) x.read(); if (again == 2) y.read();
  // the file is written anew before it is read again
  if (again == 3) { file_("x.log", energyLines("Alpha", w, p) + (b1 ? energyLines("Beta", o, w) : "") + " end\n"); x.read(); sameEnergies(x, "Alpha", w, p); if (b1) sameEnergies(x, "Beta", o, w); sym_reach("written anew"); return; }
  sameEnergies(x, "Alpha", o, v); sameEnergies(y, "Alpha", p, w); if (b1) sameEnergies(x, "Beta", p, v); if (b2) sameEnergies(y, "Beta", o, w);
  sym_check(rejected([&] { x.getOE("Beta"); }) == !b1 && rejected([&] { y.getOE("Beta"); }) == !b2, "spins of each file");
  sym_obs_d("e", x.getOE("Alpha").at(0)); sym_reach("two files");
}
