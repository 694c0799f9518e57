// C20: which files the readers accept
#include "str.h"
#include "text.h"
static bool extOf(const string& n, string& e) {
  int k = lastAt(n, "/"); string b = cut(n, k + 1, n.size());
  int d = lastAt(b, ".");
  if (d < 0) return false;
  e = cut(b, d, b.size()); return true;
}
// every name over '.', '/', digits and letters
extern "C" void t_name() {
  string n = text("n", sym_param("lo", 1), sym_param("hi", 6), '.', 'z'), e; int pun = sym_param("pun", 0);
  bool has = extOf(n, e);
  int good = has && (pun ? sym_or(same(e, ".pun"), sym_or(same(e, ".7"), same(e, ".orb"))) : same(e, ".log"));
  string got;
  bool ref = rejected([&] { if (pun) { PunReader r(n); got = r.getExt(); } else { LogReader r(n); got = r.getExt(); } });
  sym_check(ref ? sym_ite(good, 0, 1) : good, "accepted exactly by its extension");
  if (!ref) { sym_check(has && same(got, e), "extension"); sym_reach("accepted"); } else sym_reach("refused");
  sym_obs_int("refused", ref);
}
// names ending in one of the extensions or in something close to it
extern "C" void t_near() {
  static const char* E[] = {".log", ".pun", ".7", ".orb", "log", ".lo", ".logg", ".LOG", ".7.log", ".log.7", ".pun.bak", "/.log", ".log/a", ".log/a.pun", ".77", ".fchk", ".log x", " x.log", ".l og", "x y .7", " .orb.x", ".log  ", ".7 "};
  string b = text("b", 0, 2, '.', '9'); int k = sym_choose("e", sizeof E / sizeof *E); string n = b + E[k], e;
  bool has = extOf(n, e); while (has && e[e.size() - 1] == ' ') e.erase(e.size() - 1);
  int log = has && e == ".log", pun = has && (e == ".pun" || e == ".7" || e == ".orb");
  sym_check(rejected([&] { LogReader r(n); }) == !log, "log files");
  sym_check(rejected([&] { PunReader r(n); }) == !pun, "pun files");
  sym_obs_int("k", k); sym_reach("near");
}
// the named file is read and no other; a missing one is reported
extern "C" void t_exist() {
  static const char* N[] = {"a.log", "b.log", "d/a.log", "a.log.log", "x y.log"}; const int n = 5;
  int have[n], want = sym_choose("want", n);
  vector<vector<Num>> o(n); vector<Num> v = energies("v", 1, 0, false);
  for (int i = 0; i < n; i++) {
    have[i] = sym_choose(nm("have", i).c_str(), 2); o[i] = energies(nm("o", i).c_str(), i + 1, 0, true);
    if (have[i]) file_(N[i], energyLines("Alpha", o[i], v) + " end\n");
  }
  LogReader r(N[want]);
  bool ref = rejected([&] { r.read(); });
  sym_check(ref == !have[want], "missing file reported");
  if (!ref) { sameEnergies(r, "Alpha", o[want], v); sym_reach("read"); } else sym_reach("missing");
  sym_obs_int("ref", ref);
}
extern "C" void t_existpun() {
  static const char* N[] = {"a.pun", "a.7", "a.orb", "d/a.pun"}; const int n = 4;
  int have[n], want = sym_choose("want", n); vector<NTab> c(n);
  for (int i = 0; i < n; i++) {
    have[i] = sym_choose(nm("have", i).c_str(), 2); c[i] = punVals(nm("c", i).c_str(), 1, i + 1);
    if (have[i]) file_(N[i], punSpin("Alpha", c[i]));
  }
  PunReader r(N[want]);
  bool ref = rejected([&] { r.read(); });
  sym_check(ref == !have[want], "missing file reported");
  if (!ref) { sameMat(r.getCoefsMatrix("Alpha"), c[want], "coefficients of the named file"); sym_reach("pun read"); } else sym_reach("pun missing");
  sym_obs_int("ref", ref);
}
// long names, in deep folders
extern "C" void t_long() {
  static const int LEN[] = {9, 31, 64, 127, 259}; static const char* E[] = {".log", ".pun", ".7", ".orb", ".lo", ".log/", "", ".punlog"};
  string n = (sym_choose("folder", 2) ? "a.pun/b.log/" : "") + longText("n", LEN[sym_choose("len", 5)], '.', '1') + E[sym_choose("e", 8)], e; bool has = extOf(n, e);
  int log = has && e == ".log", pun = has && (e == ".pun" || e == ".7" || e == ".orb");
  sym_check(rejected([&] { LogReader r(n); }) == !log, "log files"); sym_check(rejected([&] { PunReader r(n); }) == !pun, "pun files");
  sym_obs_int("log", log); sym_reach("long names");
}
