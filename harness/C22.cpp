// C22: numbers on the command line
#include "cli.h"
#include "text.h"
#include "io/arguments/properties/propertyint.hpp"
#include "io/arguments/properties/propertydouble.hpp"
static ArgumentParser* parser(const char* kind) {
  set<vector<string>> f; f.insert(flag("--num", "-n"));
  ArgumentParser* p = new ArgumentParser(f); p->addFlagArg("--num", kind); return p;
}
static bool digit(char c) { return (c >= '0') & (c <= '9'); }
// -1 not a whole number; the value (magnitude below 10^17) in v otherwise
static bool whole(const string& s, long& v) {
  size_t i = 0; bool neg = false; v = 0;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg = s[i] == '-'; i++; }
  if (i == s.size()) return false;
  for (; i < s.size(); i++) { if (!digit(s[i])) return false; v = v * 10 + (s[i] - '0'); }
  if (neg) v = -v;
  return true;
}
static void range(ArgumentParser* p, const char* arg, const char* prop, int w, int lo, int hi) {
  if (w & 1) p->setFlagArgOpt("--num", arg, prop, "MIN", lo);
  if (w & 2) p->setFlagArgOpt("--num", arg, prop, "MAX", hi);
}
static void decideInt(ArgumentParser* p, const string& s, long lo, long hi) {
  long v; bool w = whole(s, v); int r = Cmd()("--num")(s).run(*p);
  int good = w && sym_and(v >= lo, v <= hi);
  sym_check(r != 2, "program goes on");
  if (r) { sym_check(sym_ite(good, 0, 1), "number in range accepted"); sym_reach("refused"); }
  else { sym_check(good, "only numbers in range accepted"); if (w) { sym_check(p->getInt("--num") == (int)v, "value"); sym_obs_int("v", p->getInt("--num")); } sym_reach("accepted"); }
}
// every short text, every range
extern "C" void t_int() {
  ArgumentParser* p = parser("ARGUMENT_INT"); int w = sym_choose("range", 4), lo = sym_int("min", -2147483647 - 1, 2147483647), hi = sym_int("max", -2147483647 - 1, 2147483647);
  range(p, "ARGUMENT_INT", "PROPERTY_INT", w, lo, hi);
  string s = text("s", 1, sym_param("max", 4), sym_param("from", '+'), sym_param("to", '9'));
  decideInt(p, s, w & 1 ? lo : -2147483648L, w & 2 ? hi : 2147483647L);
}
// as many digits as an int has, and one more
extern "C" void t_big() {
  ArgumentParser* p = parser("ARGUMENT_INT");
  int sg = sym_choose("sign", 3), n = sym_param("n", 10); string s = sg == 0 ? "" : sg == 1 ? "-" : "+";
  for (int i = 0; i < n; i++) s += sym_char(nm("d", i).c_str(), i ? '0' : '1', '9');
  decideInt(p, s, -2147483648L, 2147483647L);
}
// both bounds belong to the range
extern "C" void t_edge() {
  ArgumentParser* p = parser("ARGUMENT_INT"); int lo = sym_int("min", -99, 99), hi = sym_int("max", -99, 99), sg = sym_choose("sign", 2);
  range(p, "ARGUMENT_INT", "PROPERTY_INT", 3, lo, hi);
  string s = sg ? "-" : ""; s += sym_char("d1", '0', '9'); s += sym_char("d2", '0', '9');
  decideInt(p, s, lo, hi);
}
extern "C" void t_pint() {
  PropertyInt p; int v = sym_int("v", -2147483647 - 1, 2147483647), lo = sym_int("min", -2147483647 - 1, 2147483647), hi = sym_int("max", -2147483647 - 1, 2147483647), w = sym_choose("range", 4);
  if (w & 1) p.setPropOption("MIN", lo);
  if (w & 2) p.setPropOption("MAX", hi);
  int good = sym_and(w & 1 ? v >= lo : 1, w & 2 ? v <= hi : 1);
  bool r = rejected([&] { sym_check(p.propValid(v), "true when valid"); });
  sym_check(r ? sym_ite(good, 0, 1) : good, "whole number within range"); sym_obs_int("r", r); sym_reach("whole number property");
}
// every value of a double, not-a-number and infinities included
extern "C" void t_pdouble() {
  PropertyDouble p; double v = sym_double_any("v"), lo = sym_double_any("min"), hi = sym_double_any("max"); int w = sym_choose("range", 4);
  sym_assume(lo == lo); sym_assume(hi == hi);
  if (w & 1) p.setPropOption("MIN", lo);
  if (w & 2) p.setPropOption("MAX", hi);
  int good = sym_and(v == v, sym_and(w & 1 ? v >= lo : v >= -1.7976931348623157e308, w & 2 ? v <= hi : v <= 1.7976931348623157e308));
  bool r = rejected([&] { sym_check(p.propValid(v), "true when valid"); });
  sym_check(r ? sym_ite(good, 0, 1) : good, "real number within range"); sym_obs_int("r", r); sym_reach("real number property");
}
// decimal notation: sign, digits with at most one point, exponent
static bool decimal(const string& s) {
  size_t i = 0, n = s.size(), d = 0;
  if (i < n && (s[i] == '+' || s[i] == '-')) i++;
  while (i < n && digit(s[i])) i++, d++;
  if (i < n && s[i] == '.') { i++; while (i < n && digit(s[i])) i++, d++; }
  if (!d) return false;
  if (i < n && (s[i] == 'e' || s[i] == 'E')) { i++; if (i < n && (s[i] == '+' || s[i] == '-')) i++; size_t x = 0; while (i < n && digit(s[i])) i++, x++; if (!x) return false; }
  return i == n;
}
extern "C" void t_dtext() {
  ArgumentParser* p = parser("ARGUMENT_DOUBLE");
  string s = text("s", 1, sym_param("max", 4), sym_param("from", '+'), sym_param("to", '9'));
  int hex = 0; for (char c : s) hex = sym_or(hex, sym_or(c == 'x', c == 'X'));
  sym_assume(!hex);
  bool good = decimal(s); int r = Cmd()("--num")(s).run(*p);
  sym_check((r == 0) == good, "accepted exactly when the whole text is a number");
  sym_obs_int("r", r); sym_reach(r ? "real refused" : "real accepted");
}
static void decideDouble(ArgumentParser* p, const string& s, double v, int w, double lo, double hi) {
  int r = Cmd()("--num")(s).run(*p);
  int good = sym_and(w & 1 ? v >= lo : 1, w & 2 ? v <= hi : 1);
  if (r) { sym_check(sym_ite(good, 0, 1), "number in range accepted"); sym_reach("real refused"); }
  else { sym_check(good, "only numbers in range accepted"); sym_check_eqd(p->getDouble("--num"), v, "value"); sym_obs_d("v", p->getDouble("--num")); sym_reach("real accepted"); }
}
extern "C" void t_dvalue() {
  ArgumentParser* p = parser("ARGUMENT_DOUBLE"); int w = sym_choose("range", 4); double lo = dbl("min", -1000, 1000), hi = dbl("max", -1000, 1000);
  if (w & 1) p->setFlagArgOpt("--num", "ARGUMENT_DOUBLE", "PROPERTY_DOUBLE", "MIN", lo);
  if (w & 2) p->setFlagArgOpt("--num", "ARGUMENT_DOUBLE", "PROPERTY_DOUBLE", "MAX", hi);
  Num n = fixed("d", sym_choose("neg", 2), sym_choose("whole", 3) + 1, sym_choose("frac", 3));
  static const char* E[] = {"", "e+01", "E-2", "e1"}; static const double F[] = {1, 10, 0.01, 10}; int e = sym_choose("e", 4);
  decideDouble(p, n.s + E[e], n.v * F[e], w, lo, hi);
}
extern "C" void t_special() {
  static const char* S[] = {"inf", "-inf", "nan", "-nan", "INFINITY", "NaN", "1e999", "-1e999", "", " ", "1 ", "1x", "1,5", "0.5.", "1e", "--1", "1-", "e1", ".", "+"};
  int i = sym_choose("s", sizeof S / sizeof *S);
  ArgumentParser* p = parser(sym_choose("kind", 2) ? "ARGUMENT_INT" : "ARGUMENT_DOUBLE");
  int r = Cmd()("--num")(S[i]).run(*p);
  sym_check(r == 1, "not a number of the range"); sym_obs_int("r", r); sym_reach("special");
}
// long texts: zeros in front, zeros behind, something that does not belong at the end
extern "C" void t_long() {
  static const int Z[] = {8, 15, 31, 64}; int kind = sym_choose("kind", 2), z = Z[sym_choose("zeros", 4)], sg = sym_choose("sign", 3), bad = sym_choose("bad", 5);
  string a; a += sym_char("d1", '0', '9'); string b; b += sym_char("d2", '0', '9'); string s = (sg == 0 ? "" : sg == 1 ? "-" : "+") + string(z, '0') + a; double v = a[0] - '0';
  if (kind) { s += "." + b + string(z, '0'); v += (b[0] - '0') / 10.0; }
  static const char* B[] = {"", "x", " 1", "-", ".."}; s += B[bad]; if (sg == 1) v = -v;
  ArgumentParser* p = parser(kind ? "ARGUMENT_DOUBLE" : "ARGUMENT_INT"); int r = Cmd()("--num")(s).run(*p);
  sym_check(r == (bad ? 1 : 0), "exactly the numbers"); if (!r) { if (kind) sym_check_near(p->getDouble("--num"), v, 1e-12, "value"); else sym_check(p->getInt("--num") == (sg == 1 ? -(a[0] - '0') : a[0] - '0'), "value"); }
  sym_obs_int("r", r); sym_reach("long texts");
}
