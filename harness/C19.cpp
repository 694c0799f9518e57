// C19: damaged or truncated files
#include "text.h"
static int pick(const char* n, int lo, int hi) { return lo + sym_choose(n, hi - lo + 1); }
template <class F> static void okOr(F f, const char* l) { int o = outcome(f); sym_check(o != 2, l); }
static const char* EL[] = {"C", "H", "Cl"};
static void judgeLog(LogReader& r, const vector<NTab>& cs, const NTab& s, const vector<int>& n, const vector<Num>& o, const vector<Num>& v, const vector<Num>& p, const vector<Num>& w) {
  if (!rejected([&] { r.getOverlapMatrix(); })) { sameOverlap(r.getOverlapMatrix(), s); sym_reach("complete overlap"); }
  vector<vector<double>> c = r.getCoords();
  if (!c.empty()) {  // one of the complete listings
    bool any = false;
    for (auto& k : cs) any = any || c[0].size() == k.size();
    sym_check(any, "complete positions");
    for (auto& k : cs) if (c[0].size() == k.size()) sameCoords(r, k);
  }
  vector<int> b = r.getBasisFuncCount();
  sym_check(b.empty() || b == n, "complete counts");
  vector<double> e;
  if (!rejected([&] { e = r.getOE("Alpha"); })) sameEnergies(r, "Alpha", o, v);
  if (!rejected([&] { e = r.getOE("Beta"); })) sameEnergies(r, "Beta", p, w);
}
// a log file cut off at any position
extern "C" void t_log() {
  int big = sym_param("big", 0);
  NTab c = coords("c", 2), c2 = coords("d", 3), s = ovVals("s", big ? 6 : 3);
  vector<int> n = {2, 1, 3};
  vector<Num> o = energies("o", big ? 6 : 2, big ? 2 : 0, true), v = energies("v", 1, 0, false), p = energies("p", 1, 0, true), w = energies("w", big ? 6 : 2, 0, false);
  string parts[] = {coordText(c, true), overlapText(s), energyLines("Alpha", o, v) + energyLines("Beta", p, w), popText(n, EL, "q", false), coordText(c2)}, t;
  if (sym_param("order", 0)) for (int i = 4; i >= 0; i--) t += parts[i]; else for (auto& x : parts) t += x;
  t += " end\n";
  int m = sym_param("mod", 0), cut = m ? sym_param("res", 0) + m * sym_choose("cut", ((int)t.size() - sym_param("res", 0)) / m + 1) : sym_choose("cut", (int)t.size() + 1);
  file_("x.log", t.substr(0, cut));
  LogReader r("x.log");
  int out = outcome([&] { r.read(); });
  if (out == 0) { judgeLog(r, {c, c2}, s, n, o, v, p, w); sym_reach("read"); } else sym_reach("reported");
  sym_obs_int("out", out != 0);
}
// a pun file cut off at any position: whole orbitals only
extern "C" void t_pun() {
  int nb = sym_param("nb", 7); NTab a = punVals("a", 3, nb), b = punVals("b", 2, nb);
  string t = punSpin("Alpha", a), beta = punSpin("Beta", b); int first = punOrb("Alpha", 1, a[0]).size(), na = t.size();
  t += beta;
  int cut = sym_choose("cut", (int)t.size() + 1);
  file_("x.pun", t.substr(0, cut));
  PunReader r("x.pun");
  int out = outcome([&] { r.read(); });
  for (int k = 0; k < 2 && out == 0; k++) {
    Matrix* m = nullptr; const NTab& x = k ? b : a;
    if (rejected([&] { m = r.getCoefsMatrix(k ? "Beta" : "Alpha"); })) continue;
    int R = m->get_rows(), C = m->get_cols();
    bool head = k ? cut < na + first - 1 : cut < first - 1;
    sym_check(R <= (int)x.size() && (head ? R == 1 && C <= nb : C == nb), "whole orbitals only");
    for (int i = 0; i < R && i < (int)x.size(); i++) for (int j = 0; j < C && j < nb; j++) sym_check_eqd(m->get_elem(i + 1, j + 1), x[i][j].v, "coefficient of the file");
    sym_reach("pun read");
  }
  if (out) sym_reach("pun reported");
  sym_obs_int("out", out != 0);
}
// one number missing from a row
extern "C" void t_hole() {
  int what = sym_choose("what", 3);
  if (what == 0) {
    int n = 7, i = pick("i", 0, n - 1), j = pick("j", 0, n - 1);
    if (j > i) { sym_obs_int("out", -1); return; }
    NTab s = ovVals("s", n); string t = overlapText(s);
    NTab h = s; h[i][j].s = ""; t = overlapText(h);
    file_("x.log", t + " end\n"); LogReader r("x.log");
    int out = outcome([&] { r.read(); });
    sym_check(out != 0 || rejected([&] { r.getOverlapMatrix(); }), "a missing overlap is reported");
    sym_obs_int("out", out != 0);
  } else if (what == 1) {
    int i = pick("i", 0, 2), j = pick("j", 0, 2); NTab c = coords("c", 3); c[i][j].s = "";
    file_("x.log", coordText(c) + " end\n"); LogReader r("x.log");
    int out = outcome([&] { r.read(); });
    sym_check(out != 0 || r.getCoords().empty(), "a missing coordinate is reported");
    sym_obs_int("out", out != 0);
  } else {
    int i = pick("i", 1, 2), j = pick("j", 0, 6); NTab a = punVals("a", 3, 7); 
    string t = punOrb("Alpha", 1, a[0]); for (int k = 1; k < 3; k++) { vector<Num> v = a[k]; if (k == i) v.erase(v.begin() + j); t += punOrb("Alpha", k + 1, v); }
    file_("x.pun", t + "\n"); PunReader r("x.pun");
    int out = outcome([&] { r.read(); });
    sym_check(out != 0 || rejected([&] { r.getCoefsMatrix("Alpha"); }), "a missing coefficient is reported");
    sym_obs_int("out", out != 0);
  }
  sym_reach("hole");
}
// sections that are missing altogether
extern "C" void t_missing() {
  int which = sym_choose("which", 16);
  NTab c = coords("c", 2), s = ovVals("s", 3); vector<int> n = {2, 1}; vector<Num> o = energies("o", 2, 0, true), v = energies("v", 1, 0, false);
  string t = " head\n";
  if (which & 1) t += coordText(c); if (which & 2) t += overlapText(s); if (which & 4) t += energyLines("Alpha", o, v); if (which & 8) t += popText(n, EL, "q", false);
  file_("x.log", t + " end\n"); LogReader r("x.log"); r.read();
  sym_check(rejected([&] { r.getOverlapMatrix(); }) == !(which & 2), "overlap exactly when listed");
  sym_check(rejected([&] { r.getOE("Alpha"); }) == !(which & 4), "energies exactly when listed");
  sym_check(rejected([&] { r.getOE("Beta"); }), "no beta energies");
  sym_check(r.getCoords().empty() == !(which & 1), "positions exactly when listed");
  sym_check(r.getBasisFuncCount().empty() == !(which & 8), "counts exactly when listed");
  judgeLog(r, {c}, s, n, o, v, {}, {});
  sym_obs_int("w", which); sym_reach("missing section");
}
// any one character replaced by any other: an error or data, never a crash
extern "C" void t_corrupt() {
  int what = sym_param("what", 0); string t; plainDigits = true; vector<int> n = {2, 1}; NTab a = punVals("a", 2, 6), s(2), c(1);
  if (what == 0) t = punSpin("Alpha", a);
  if (what == 1) t = overlapText(ovVals("s", sym_param("n", 3))) + " end\n";
  if (what == 2) t = popText(n, EL, "q", false) + " end\n";
  if (what == 3) t = coordText(coords("c", 1)) + " end\n";
  if (what == 4) t = energyLines("Alpha", energies("o", 2, 2, true), energies("v", 1, 0, false)) + " end\n";
  int m = sym_param("mod", 1), at = sym_choose("at", (int)t.size() / m) * m;
  t[at] = sym_char("z", 9, 126);
  const char* f = what ? "x.log" : "x.pun"; file_(f, t);
  int out;
  if (what) { LogReader r(f); out = outcome([&] { r.read(); r.getBasisFuncCount(); r.getCoords(); }); }
  else { PunReader r(f); out = outcome([&] { r.read(); }); }
  sym_check(out != 2 || what == 1, "no exit"); sym_obs_int("out", out != 0); sym_reach("corrupt");
}
