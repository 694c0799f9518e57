// C27: run parameters
#include "str.h"
#include "parameters.hpp"
using namespace catnip;
static const int NS = 12;  // text parameters: six files, three spins, three orbital types
static void setS(Parameters& p, int k, const string& s) {
  switch (k) { case 0: p.setLog1(s); break; case 1: p.setLog2(s); break; case 2: p.setLogP(s); break; case 3: p.setPun1(s); break; case 4: p.setPun2(s); break; case 5: p.setPunP(s); break;
    case 6: p.setSpin1(s); break; case 7: p.setSpin2(s); break; case 8: p.setSpinP(s); break; case 9: p.setOrbType1(s); break; case 10: p.setOrbType2(s); break; default: p.setOrbTypeP(s); } }
static string getS(const Parameters& p, int k) {
  switch (k) { case 0: return p.getLog1(); case 1: return p.getLog2(); case 2: return p.getLogP(); case 3: return p.getPun1(); case 4: return p.getPun2(); case 5: return p.getPunP();
    case 6: return p.getSpin1(); case 7: return p.getSpin2(); case 8: return p.getSpinP(); case 9: return p.getOrbType1(); case 10: return p.getOrbType2(); default: return p.getOrbTypeP(); } }
static void setI(Parameters& p, int k, int v) { switch (k) { case 0: p.setOrbNum1(v); break; case 1: p.setOrbNum2(v); break; case 2: p.setOrbNumP(v); break; case 3: p.setCounterPoise(v != 0); break; default: p.setCitation(v != 0); } }
static int getI(const Parameters& p, int k) { switch (k) { case 0: return p.getOrbNum1(); case 1: return p.getOrbNum2(); case 2: return p.getOrbNumP(); case 3: return p.getCounterPoise(); default: return p.getCitation(); } }
static void all(const Parameters& p, const vector<string>& s, const vector<int>& v) {
  for (int i = 0; i < NS; i++) sym_check(same(getS(p, i), s[i]), i < 6 ? "file names" : i < 9 ? "spins" : "orbital types");
  for (int i = 0; i < 5; i++) sym_check(getI(p, i) == v[i], i < 3 ? "orbital numbers" : i == 3 ? "counterpoise" : "citation");
}
static string extOf(const string& n) { int d = lastAt(n, "."); return d < 0 ? "" : cut(n, d, n.size()); }
static int fits(int k, const string& n) {
  string e = extOf(n);
  return k < 3 ? same(e, ".log") : sym_or(same(e, ".pun"), sym_or(same(e, ".7"), same(e, ".orb")));
}
static void step(Parameters& p, vector<string>& s, vector<int>& v, int k, const string& x, int n) {
  if (k < 6) {
    int good = fits(k, x);
    bool r = rejected([&] { setS(p, k, x); });
    sym_check(r ? sym_ite(good, 0, 1) : good, "exactly the right kind of file");
    if (!r) { s[k] = x; sym_reach("right kind"); } else sym_reach("wrong kind");
  } else if (k < NS) { setS(p, k, x); s[k] = x; }
  else { setI(p, k - NS, n); v[k - NS] = k - NS < 3 ? n : n != 0; }
  all(p, s, v);
}
// every name for every file
extern "C" void t_name() {
  Parameters p; vector<string> s(NS); vector<int> v(5, 0); all(p, s, v);
  int k = sym_choose("which", 6); bool before = sym_choose("before", 2);
  if (before) step(p, s, v, k, k < 3 ? "old.log" : "old.7", 0);
  step(p, s, v, k, text("n", 0, sym_param("max", 6), '.', 'z'), 0);
  sym_obs_int("k", k); sym_reach("names");
}
// any settings one after the other
extern "C" void t_seq() {
  static const char* N[] = {"a.log", "b.pun", "c.7", "d.log", "e.orb", "x.lo"};
  Parameters p; vector<string> s(NS); vector<int> v(5, 0); all(p, s, v); int n = sym_param("n", 2);
  for (int i = 0; i < n; i++) {
    int k = sym_choose(nm("which", i).c_str(), NS + 5);
    string x = k < 6 ? N[sym_choose(nm("name", i).c_str(), 6)] : k < NS ? text(nm("text", i).c_str(), 0, 1, 'A', 'z') : "";
    step(p, s, v, k, x, k < NS ? 0 : k < NS + 3 ? sym_int(nm("num", i).c_str(), -2147483647 - 1, 2147483647) : sym_choose(nm("on", i).c_str(), 2));
  }
  sym_obs_int("n", n); sym_reach("sequence");
}
// the last value counts
extern "C" void t_twice() {
  Parameters p; vector<string> s(NS); vector<int> v(5, 0); int k = sym_choose("which", NS + 5);
  static const char* A[] = {"a.log", "bb.log"}; static const char* B[] = {"a.pun", "bb.7"};
  for (int i = 0; i < 2; i++) step(p, s, v, k, k < 3 ? A[i] : k < 6 ? B[i] : text(nm("t", i).c_str(), 1, 3, 'A', 'z'), k < NS ? 0 : k < NS + 3 ? sym_int(nm("num", i).c_str(), -2147483647 - 1, 2147483647) : sym_choose(nm("on", i).c_str(), 2));
  sym_obs_int("k", k); sym_reach("twice");
}

// two sets of parameters in one program
extern "C" void t_two() {
  Parameters p, q; vector<string> s(NS), t(NS); vector<int> v(5, 0), w(5, 0); int k = sym_choose("which", NS + 5), l = sym_choose("other", 3); l = l == 0 ? k : l == 1 ? (k + 5) % (NS + 5) : (k + 11) % (NS + 5);
  auto name = [](int k, int i) { static const char* A[] = {"a.log", "bb.log"}; static const char* B[] = {"a.pun", "bb.7"}; return k < 3 ? string(A[i]) : k < 6 ? string(B[i]) : string(i ? "xy" : "z"); };
  step(p, s, v, k, name(k, 0), k < NS + 3 ? sym_int("n", -2147483647 - 1, 2147483647) : 1); all(q, t, w);
  step(q, t, w, l, name(l, 1), l < NS + 3 ? sym_int("m", -2147483647 - 1, 2147483647) : 1); all(p, s, v);
  Parameters c = p; step(c, s, v, l, name(l, 1), 0); all(q, t, w); sym_obs_int("k", k); sym_reach("two sets");
}
// long values
extern "C" void t_long() {
  static const int LEN[] = {12, 40, 128, 260}; static const char* E[] = {".log", ".pun", ".7", ".orb", "", ".punlog"};
  Parameters p; vector<string> s(NS); vector<int> v(5, 0); int k = sym_choose("which", NS); string x = longText("n", LEN[sym_choose("len", 4)], '.', '1') + E[sym_choose("e", 6)];
  step(p, s, v, k, x, 0); step(p, s, v, (k + 3) % NS, k % 2 ? x : "y.log", 0); sym_obs_int("k", k); sym_reach("long values");
}
