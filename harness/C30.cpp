// C30: options of argument properties
#include "cli.h"
#include <algorithm>
#include "io/arguments/argumentint.hpp"
#include "io/arguments/argumentdouble.hpp"
#include "io/arguments/argumentfile.hpp"
#include "io/arguments/argumentstring.hpp"
#include "io/arguments/argumentswitch.hpp"
#include "io/arguments/properties/propertyint.hpp"
#include "io/arguments/properties/propertydouble.hpp"
#include "io/arguments/properties/propertystring.hpp"
#include "io/arguments/properties/propertystringchoice.hpp"
#include "io/arguments/properties/propertyswitch.hpp"
#include "io/arguments/properties/propertyfileext.hpp"
#include "io/arguments/properties/propertyfileexist.hpp"
#include "io/arguments/properties/propertysisterfile.hpp"
#include <limits>
static const int BIG = 2147483647;
// last value set
extern "C" void t_int() {
  PropertyInt p, other; int v[2] = {-BIG - 1, BIG}; static const char* O[] = {"MIN", "MAX"};
  for (int i = 0; i <= sym_param("n", 3); i++) {
    for (int k = 0; k < 2; k++) sym_check(p.getPropOption(O[k]) == v[k], "last value set");
    sym_check(other.getPropOption("MIN") == -BIG - 1 && other.getPropOption("MAX") == BIG, "another property");
    int k = sym_choose(nm("option", i).c_str(), 2), x = sym_int(nm("x", i).c_str(), -BIG - 1, BIG); p.setPropOption(O[k], x); v[k] = x;
  }
  sym_obs_int("min", v[0]); sym_reach("whole numbers");
}
extern "C" void t_double() {
  PropertyDouble p; double v[2] = {std::numeric_limits<double>::lowest(), std::numeric_limits<double>::max()}; static const char* O[] = {"MIN", "MAX"};
  for (int i = 0; i <= sym_param("n", 3); i++) {
    for (int k = 0; k < 2; k++) sym_check(p.getPropOption(O[k]) == v[k], "last value set");
    int k = sym_choose(nm("option", i).c_str(), 2); double x = dbl(nm("x", i), -1e6, 1e6); p.setPropOption(O[k], x); v[k] = x;
  }
  sym_obs_d("min", v[0]); sym_reach("real numbers");
}
extern "C" void t_size() {
  PropertyString p; size_t v[2] = {0, (size_t)-1}; static const char* O[] = {"MIN_LENGTH", "MAX_LENGTH"};
  for (int i = 0; i <= sym_param("n", 3); i++) {
    for (int k = 0; k < 2; k++) sym_check(p.getPropOption(O[k]) == v[k], "last value set");
    int k = sym_choose(nm("option", i).c_str(), 2); size_t x = (size_t)sym_int(nm("x", i).c_str(), 0, BIG); p.setPropOption(O[k], x); v[k] = x;
  }
  // and they decide which lengths are allowed
  PropertyString q; int a = sym_int("a", 0, 5), b = sym_int("b", 0, 5); q.setPropOption("MIN_LENGTH", (size_t)a); q.setPropOption("MAX_LENGTH", (size_t)b);
  string s(sym_choose("length", 6), 'x'); int n = (int)s.size(), good = sym_and(n >= a, n <= b); bool r = rejected([&] { q.propValid(s); });
  sym_check(r ? sym_ite(good, 0, 1) : good, "exactly the allowed lengths"); sym_obs_int("r", r); sym_reach("lengths");
}
// a name near one of the options
static string nearby(const char* o) {
  string s = o; int how = sym_choose("change", 5), n = (int)s.size();
  if (how == 0) { int at = sym_choose("at", n); s[at] = sym_char("c", '-', 'z'); }
  if (how == 1) s += sym_char("c", '-', 'z');
  if (how == 2) s = cut(s, 0, n - 1);
  if (how == 3) s = cut(s, 1, n);
  if (how == 4) s = "";
  return s;
}
template <class P> static void unknown(P& p, const char** o, int n, decltype(p.getPropOption("")) x) {
  int k = sym_choose("option", n); string s = nearby(o[k]); int known = 0, hit = k;
  for (int i = 0; i < n; i++) if (same(s, o[i])) { known = 1; hit = i; }
  vector<decltype(p.getPropOption(""))> before; for (int i = 0; i < n; i++) before.push_back(p.getPropOption(o[i]));
  sym_check(rejected([&] { p.getPropOption(s); }) == !known, "unknown option read");
  bool r = rejected([&] { p.setPropOption(s, x); });
  sym_check(r == !known, "unknown option set");
  for (int i = 0; i < n; i++) if (!(known && i == hit)) sym_check(p.getPropOption(o[i]) == before[i], "others unchanged");
  if (known) sym_check(p.getPropOption(o[hit]) == x, "last value set");
  vector<string> l = p.getPropertyOptions(); sym_check((int)l.size() == n, "options listed");
  for (int i = 0; i < n; i++) { int in = 0; for (auto& y : l) if (y == o[i]) in = 1; sym_check(in, "options listed"); }
  sym_obs_int("r", r); sym_reach(r ? "unknown option" : "known option");
}
extern "C" void t_unknown() {
  static const char* A[] = {"MIN", "MAX"}; static const char* B[] = {"MIN_LENGTH", "MAX_LENGTH"}; static const char* C[] = {"FILE_MUST_EXIST", "FILE_DOES_EXIST"}; static const char* D[] = {"DEFAULT"};
  static const char* E[] = {"ALLOWED_FILE_EXT"}; static const char* F[] = {"STRING_CHOICE_ENFORCED", "STRING_CHOICES"};
  switch (sym_param("which", 0)) {
    case 0: { PropertyInt p; unknown(p, A, 2, 5); break; }
    case 1: { PropertyDouble p; unknown(p, A, 2, 2.5); break; }
    case 2: { PropertyString p; unknown(p, B, 2, (size_t)7); break; }
    case 3: { PropertyFileExist p; unknown(p, C, 2, 1); break; }
    case 4: { PropertySwitch p; unknown(p, D, 1, string("ON")); break; }
    case 5: { PropertyFileExt p; set<string> s; s.insert(".log"); unknown(p, E, 1, s); break; }
    default: { PropertyStringChoice p; set<string> s; s.insert("true"); unknown(p, F, 2, s); break; }
  }
}
// choices: whether they are enforced is true or false, nothing else
extern "C" void t_choice() {
  PropertyStringChoice p; set<string> c, e; c.insert("NOT_DEFINED"); e.insert("false");
  int n = sym_param("n", 2);
  for (int i = 0; i <= n; i++) {
    sym_check(p.getPropOption("STRING_CHOICES") == c, "choices"); sym_check(p.getPropOption("STRING_CHOICE_ENFORCED") == e, "whether they are enforced");
    if (i == n) break;
    int what = sym_choose(nm("what", i).c_str(), 7); set<string> s;
    if (what == 0) { s.insert("HOMO"); s.insert("LUMO"); p.setPropOption("STRING_CHOICES", s); c = s; }
    if (what == 1) { s.insert("x"); p.setPropOption("STRING_CHOICES", string("x")); c = s; }
    if (what == 2 || what == 3) {
      string w = text(nm("w", i).c_str(), 4, 5, 'a', 'u'); int good = sym_or(same(w, "true"), same(w, "false")); s.insert(w);
      bool r = rejected([&] { if (what == 2) p.setPropOption("STRING_CHOICE_ENFORCED", w); else p.setPropOption("STRING_CHOICE_ENFORCED", s); });
      sym_check(r ? sym_ite(good, 0, 1) : good, "exactly true and false"); if (!r) e = s; sym_reach(r ? "neither" : "true or false");
    }
    if (what == 4) { s.insert("true"); s.insert("false"); sym_check(rejected([&] { p.setPropOption("STRING_CHOICE_ENFORCED", s); }), "one of them only"); }
    if (what == 6) sym_check(rejected([&] { p.setPropOption("STRING_CHOICE_ENFORCED", s); }), "one of them at least");
    if (what == 5) { s.insert("true"); bool q = sym_choose(nm("set", i).c_str(), 2); sym_check(rejected([&] { if (q) p.setPropOption("STRING_CHOICE", s); else p.setPropOption("STRING_CHOICE", string("true")); }), "unknown option set"); }
  }
  sym_obs_int("n", n);
}
// companion files: only the extensions can be set
extern "C" void t_sister() {
  static const char* O[] = {"SISTER_FILE_NAME", "SISTER_FILE_PATH", "SISTER_FILE_PATH_NAME", "SISTER_FILE_EXISTS", "ALLOWED_SISTER_FILE_EXT"};
  PropertySisterFile p; vector<string> e; e.push_back(".log"); e.push_back(".pun"); p.setPropOption("ALLOWED_SISTER_FILE_EXT", e);
  if (sym_choose("used", 2)) p.propValid("d/a.pun");
  vector<vector<string>> v; for (auto o : O) v.push_back(p.getPropOption(o)); sym_check(v[4] == e, "extensions kept");
  int k = sym_choose("option", 5); string s = nearby(O[k]); bool known = same(s, "ALLOWED_SISTER_FILE_EXT"), one = sym_choose("one", 2); vector<string> x; x.push_back(".7");
  bool r = rejected([&] { if (one) p.setPropOption(s, string(".7")); else p.setPropOption(s, x); });
  sym_check(r == !known, "only the extensions can be set");
  for (int i = 0; i < 5; i++) if (i < 4 || !known) sym_check(p.getPropOption(O[i]) == v[i], "others unchanged"); else sym_check(p.getPropOption(O[4]) == x, "extensions kept");
  sym_obs_int("r", r); sym_reach(r ? "protected" : "settable");
}
// arguments hand options to the property named, and no other
extern "C" void t_arg() {
  int a = sym_choose("argument", 4); static const char* P[] = {"PROPERTY_INT", "PROPERTY_FILE_EXIST", "PROPERTY_FILE_EXT", "PROPERTY_STRING_CHOICE"};
  static const char* O[] = {"MAX", "FILE_MUST_EXIST", "ALLOWED_FILE_EXT", "STRING_CHOICES"};
  string pr = nearby(P[a]); int known = same(pr, P[a]), r; int x = sym_int("x", -BIG - 1, BIG);
  set<string> s; s.insert("b"); s.insert("a");
  ArgumentInt ai; ArgumentFile af; ArgumentString as;
  auto get = [&](const char* q, const char* o) { return a == 0 ? ai.getPropertyValues(q, o) : a == 3 ? as.getPropertyValues(q, o) : af.getPropertyValues(q, o); };
  r = rejected([&] { if (a == 0) ai.setArgPropertyOpt(pr, O[a], x); else if (a == 1) af.setArgPropertyOpt(pr, O[a], x); else if (a == 2) af.setArgPropertyOpt(pr, O[a], s); else as.setArgPropertyOpt(pr, O[a], s); });
  sym_check(r == !known, "unknown property");
  sym_check(rejected([&] { get(pr.c_str(), O[a]); }) == !known, "unknown property read");
  string w = a == 0 ? (known ? to_string(x) : to_string(BIG)) : a == 1 ? (known ? to_string(x) : "0") : a == 2 ? (known ? "a b" : "*") : (known ? "a b" : "NOT_DEFINED");
  sym_check(same(get(P[a], O[a]), w), "value of the option");
  if (a == 0) sym_check(get(P[0], "MIN") == to_string(-BIG - 1), "others unchanged");
  if (a == 1 || a == 2) { sym_check(get(P[1], "FILE_DOES_EXIST") == "0", "others unchanged"); sym_check(get("PROPERTY_SISTER_FILE", "ALLOWED_SISTER_FILE_EXT") == "NOT_DEFINED", "others unchanged"); if (a == 1) sym_check(get(P[2], O[2]) == "*", "others unchanged"); else sym_check(get(P[1], O[1]) == "0", "others unchanged"); }
  if (a == 3) sym_check(get(P[3], "STRING_CHOICE_ENFORCED") == "false", "others unchanged");
  sym_obs_int("r", r); sym_reach(r ? "unknown property" : "known property");
}
static ArgumentParser* parser() {
  static const char* N[] = {"--int", "--dbl", "--str", "--file", "--sw", "--two"}; static const char* S[] = {"-i", "-d", "-s", "-f", "-w", "-t"};
  set<vector<string>> f; for (int i = 0; i < 6; i++) f.insert(flag(N[i], S[i])); return new ArgumentParser(f);
}
// options set through the parser reach the flag named, and no other
extern "C" void t_parser() {
  ArgumentParser* p = parser(); int added = sym_choose("added", 2); int x = sym_int("x", -BIG - 1, BIG), y = sym_int("y", -BIG - 1, BIG);
  if (added) { p->addFlagArg("--int", "ARGUMENT_INT"); p->addFlagArg("--two", "ARGUMENT_INT"); }
  p->setFlagArgOpt("--int", "ARGUMENT_INT", "PROPERTY_INT", "MIN", x);
  p->setFlagArgOpt("--two", "ARGUMENT_INT", "PROPERTY_INT", "MAX", y);
  auto get = [&](const char* f, const char* o) { return p->getFlagArgOptValue(f, "ARGUMENT_INT", "PROPERTY_INT", o); };
  sym_check(same(get("--int", "MIN"), to_string(x)), "option of the flag"); sym_check(same(get("--two", "MAX"), to_string(y)), "option of the other flag");
  sym_check(get("--int", "MAX") == to_string(BIG), "others unchanged"); sym_check(get("--two", "MIN") == to_string(-BIG - 1), "others unchanged");
  int z = sym_int("z", -BIG - 1, BIG); p->setFlagArgOpt("--int", "ARGUMENT_INT", "PROPERTY_INT", "MIN", z);
  sym_check(same(get("--int", "MIN"), to_string(z)), "last value set"); sym_check(same(get("--two", "MAX"), to_string(y)), "option of the other flag");
  // the flag, the argument and the option have to be known
  string f = nearby("--int"), g = nearby("MIN"); int kf = sym_or(same(f, "--int"), same(f, "--two")), kg = sym_or(same(g, "MIN"), same(g, "MAX"));
  bool r = rejected([&] { p->getFlagArgOptValue(f, "ARGUMENT_INT", "PROPERTY_INT", "MIN"); }); sym_check(r ? sym_ite(kf, 0, 1) : kf, "unknown flag");
  r = rejected([&] { get("--int", g.c_str()); }); sym_check(r ? sym_ite(kg, 0, 1) : kg, "unknown option");
  sym_check(rejected([&] { p->getFlagArgOptValue("--int", "ARGUMENT_FILE", "PROPERTY_INT", "MIN"); }), "unknown argument");
  sym_obs_int("x", z); sym_reach("parser");
}
extern "C" void t_kinds() {
  ArgumentParser* p = parser(); int added = sym_choose("added", 2);
  if (added) { p->addFlagArg("--dbl", "ARGUMENT_DOUBLE"); p->addFlagArg("--str", "ARGUMENT_STRING"); p->addFlagArg("--file", "ARGUMENT_FILE"); p->addFlagArg("--sw", "ARGUMENT_SWITCH"); }
  set<string> c; c.insert("b"); c.insert("a"); vector<string> e; e.push_back(".pun"); e.push_back(".7");
  p->setFlagArgOpt("--str", "ARGUMENT_STRING", "PROPERTY_STRING_CHOICE", "STRING_CHOICES", c);
  p->setFlagArgOpt("--str", "ARGUMENT_STRING", "PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", string("true"));
  p->setFlagArgOpt("--file", "ARGUMENT_FILE", "PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", string(".log"));
  p->setFlagArgOpt("--file", "ARGUMENT_FILE", "PROPERTY_SISTER_FILE", "ALLOWED_SISTER_FILE_EXT", e);
  int m = sym_int("m", 0, 1); p->setFlagArgOpt("--file", "ARGUMENT_FILE", "PROPERTY_FILE_EXIST", "FILE_MUST_EXIST", m);
  int w = sym_int("w", -BIG - 1, BIG); bool r = rejected([&] { p->setFlagArgOpt("--sw", "ARGUMENT_SWITCH", "PROPERTY_SWITCH", "DEFAULT", w); }); int good = sym_or(w == 0, w == 1);
  sym_check(r ? sym_ite(good, 0, 1) : good, "a switch is on or off");
  if (!r) sym_check(p->getFlagArgOptValue("--sw", "ARGUMENT_SWITCH", "PROPERTY_SWITCH", "DEFAULT") == (w == 1 ? "ON" : "OFF"), "default of the switch");
  if (!r) {
    string t = text("t", 2, 3, 'F', 'O'); int ok = sym_or(same(t, "ON"), same(t, "OFF")), was = w == 1; bool q = rejected([&] { p->setFlagArgOpt("--sw", "ARGUMENT_SWITCH", "PROPERTY_SWITCH", "DEFAULT", t); });
    sym_check(q ? sym_ite(ok, 0, 1) : ok, "a switch is ON or OFF");
    sym_check(same(p->getFlagArgOptValue("--sw", "ARGUMENT_SWITCH", "PROPERTY_SWITCH", "DEFAULT"), q ? string(was ? "ON" : "OFF") : t), "default of the switch");
  }
  sym_check(p->getFlagArgOptValue("--str", "ARGUMENT_STRING", "PROPERTY_STRING_CHOICE", "STRING_CHOICES") == "a b", "choices");
  sym_check(p->getFlagArgOptValue("--str", "ARGUMENT_STRING", "PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED") == "true", "whether they are enforced");
  sym_check(p->getFlagArgOptValue("--file", "ARGUMENT_FILE", "PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT") == ".log", "extension");
  sym_check(p->getFlagArgOptValue("--file", "ARGUMENT_FILE", "PROPERTY_SISTER_FILE", "ALLOWED_SISTER_FILE_EXT") == ".pun .7", "companions");
  sym_check(same(p->getFlagArgOptValue("--file", "ARGUMENT_FILE", "PROPERTY_FILE_EXIST", "FILE_MUST_EXIST"), to_string(m)), "requirement");
  double d = sym_int("d", -1000, 1000); p->setFlagArgOpt("--dbl", "ARGUMENT_DOUBLE", "PROPERTY_DOUBLE", "MIN", d);
  string dv; sym_check(!rejected([&] { dv = p->getFlagArgOptValue("--dbl", "ARGUMENT_DOUBLE", "PROPERTY_DOUBLE", "MIN"); }), "options of a real number");
  sym_check(same(dv, to_string(d)), "option of a real number");
  sym_obs_int("r", r); sym_reach("kinds");
}
// arguments list their properties and options, and give each option with its own property only
template <class A> static void listed(A& a, vector<pair<string, vector<string>>> want) {
  vector<string> props, opts; for (auto& w : want) { props.push_back(w.first); for (auto& o : w.second) opts.push_back(o); }
  auto sorted = [](vector<string> v) { std::sort(v.begin(), v.end()); return v; };
  sym_check(sorted(a.getProperties()) == sorted(props), "properties listed");
  sym_check(sorted(a.getPropertyOptions()) == sorted(opts), "options listed");
  auto all = a.getPropertyValues(); sym_check(all.size() == opts.size(), "every option has a value");
  for (auto& w : want) for (auto& o : opts) {
    bool own = std::find(w.second.begin(), w.second.end(), o) != w.second.end(); string v; bool r = rejected([&] { v = a.getPropertyValues(w.first, o); });
    sym_check(r == !own, "option of its own property"); if (!r) sym_check(all.count(o) == 1 && same(all[o], v), "the same value");
  }
}
extern "C" void t_list() {
  int x = sym_int("x", -BIG - 1, BIG);
  switch (sym_choose("argument", 5)) {
    case 0: { ArgumentInt a; a.setArgPropertyOpt("PROPERTY_INT", "MAX", x); listed(a, {{"PROPERTY_INT", {"MIN", "MAX"}}}); sym_check(a.getArgumentName() == "ARGUMENT_INT", "name"); break; }
    case 1: { ArgumentDouble a; listed(a, {{"PROPERTY_DOUBLE", {"MIN", "MAX"}}}); sym_check(a.getArgumentName() == "ARGUMENT_DOUBLE", "name"); break; }
    case 2: { ArgumentFile a; a.setArgPropertyOpt("PROPERTY_FILE_EXIST", "FILE_MUST_EXIST", x); listed(a, {{"PROPERTY_FILE_EXIST", {"FILE_MUST_EXIST", "FILE_DOES_EXIST"}}, {"PROPERTY_FILE_EXT", {"ALLOWED_FILE_EXT"}}, {"PROPERTY_SISTER_FILE", {"ALLOWED_SISTER_FILE_EXT", "SISTER_FILE_NAME", "SISTER_FILE_PATH", "SISTER_FILE_PATH_NAME", "SISTER_FILE_EXISTS"}}}); sym_check(a.getArgumentName() == "ARGUMENT_FILE", "name"); break; }
    case 3: { ArgumentString a; listed(a, {{"PROPERTY_STRING", {"MIN_LENGTH", "MAX_LENGTH"}}, {"PROPERTY_STRING_CHOICE", {"STRING_CHOICE_ENFORCED", "STRING_CHOICES"}}}); sym_check(a.getArgumentName() == "ARGUMENT_STRING", "name"); break; }
    default: { ArgumentSwitch a; listed(a, {{"PROPERTY_SWITCH", {"DEFAULT"}}}); sym_check(a.getArgumentName() == "ARGUMENT_SWITCH", "name"); }
  }
  sym_reach("listed");
}

// a property takes values of its own kind only; another kind is refused and changes nothing
template <class A> static void typed(A& a, const char* pr, const char* op, const char* kinds) {
  int kind = sym_choose("kind", 5); char k = "idsvS"[kind]; bool own = strchr(kinds, k) != 0; auto before = a.getPropertyValues();
  int x = sym_int("x", -BIG - 1, BIG); double d = sym_int("d", -1000, 1000); string t = own && kinds[0] == 'w' ? "ON" : ".x"; vector<string> v; v.push_back(".q"); v.push_back(".p"); set<string> s(v.begin(), v.end());
  bool r = rejected([&] { if (k == 'i') a.setArgPropertyOpt(pr, op, x); if (k == 'd') a.setArgPropertyOpt(pr, op, d); if (k == 's') a.setArgPropertyOpt(pr, op, t); if (k == 'v') a.setArgPropertyOpt(pr, op, v); if (k == 'S') a.setArgPropertyOpt(pr, op, s); });
  sym_check(r == !own, "values of its own kind"); auto after = a.getPropertyValues(); sym_check(after.size() == before.size(), "the same options");
  for (auto& e : before) if (r || e.first != op) sym_check(after[e.first] == e.second, "others unchanged");
  if (!r) sym_check(same(after[op], k == 'i' ? to_string(x) : k == 'd' ? to_string(d) : k == 's' ? t : k == 'v' ? string(".q .p") : string(".p .q")), "value of the option");
  sym_obs_int("r", r); sym_reach(r ? "another kind" : "its own kind");
}
extern "C" void t_typed() {
  switch (sym_choose("property", 8)) {
    case 0: { ArgumentInt a; typed(a, "PROPERTY_INT", "MIN", "i"); break; }
    case 1: { ArgumentDouble a; typed(a, "PROPERTY_DOUBLE", "MAX", "d"); break; }
    case 2: { ArgumentFile a; typed(a, "PROPERTY_FILE_EXIST", "FILE_MUST_EXIST", "i"); break; }
    case 3: { ArgumentFile a; typed(a, "PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", "sS"); break; }
    case 4: { ArgumentFile a; typed(a, "PROPERTY_SISTER_FILE", "ALLOWED_SISTER_FILE_EXT", "sv"); break; }
    case 5: { ArgumentString a; typed(a, "PROPERTY_STRING", "MIN_LENGTH", ""); break; }
    case 6: { ArgumentString a; typed(a, "PROPERTY_STRING_CHOICE", "STRING_CHOICES", "sS"); break; }
    default: { ArgumentSwitch a; typed(a, "PROPERTY_SWITCH", "DEFAULT", "ws"); }
  }
}

// the same through the parser
extern "C" void t_given() {
  struct K { const char *flag, *arg, *prop, *opt, *kinds, *dflt; };
  static const K T[] = {{"--int", "ARGUMENT_INT", "PROPERTY_INT", "MAX", "i", "2147483647"}, {"--dbl", "ARGUMENT_DOUBLE", "PROPERTY_DOUBLE", "MIN", "d", ""}, {"--file", "ARGUMENT_FILE", "PROPERTY_FILE_EXIST", "FILE_MUST_EXIST", "i", "0"},
    {"--file", "ARGUMENT_FILE", "PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", "sS", "*"}, {"--file", "ARGUMENT_FILE", "PROPERTY_SISTER_FILE", "ALLOWED_SISTER_FILE_EXT", "sv", "NOT_DEFINED"}, {"--str", "ARGUMENT_STRING", "PROPERTY_STRING", "MIN_LENGTH", "", "0"},
    {"--str", "ARGUMENT_STRING", "PROPERTY_STRING_CHOICE", "STRING_CHOICES", "sS", "NOT_DEFINED"}, {"--sw", "ARGUMENT_SWITCH", "PROPERTY_SWITCH", "DEFAULT", "is", "OFF"}};
  ArgumentParser* p = parser(); int w = sym_choose("property", 8), kind = sym_choose("kind", 5), added = sym_choose("added", 2); const K& q = T[w]; char k = "idsvS"[kind]; bool own = strchr(q.kinds, k) != 0;
  if (added) p->addFlagArg(q.flag, q.arg);
  int x = w == 7 ? sym_choose("on", 2) : sym_int("x", -1000, 1000); double d = sym_int("d", -1000, 1000); string t = w == 7 ? "ON" : ".x"; vector<string> v; v.push_back(".q"); v.push_back(".p"); set<string> s(v.begin(), v.end());
  bool r = rejected([&] { if (k == 'i') p->setFlagArgOpt(q.flag, q.arg, q.prop, q.opt, x); if (k == 'd') p->setFlagArgOpt(q.flag, q.arg, q.prop, q.opt, d); if (k == 's') p->setFlagArgOpt(q.flag, q.arg, q.prop, q.opt, t); if (k == 'v') p->setFlagArgOpt(q.flag, q.arg, q.prop, q.opt, v); if (k == 'S') p->setFlagArgOpt(q.flag, q.arg, q.prop, q.opt, s); });
  sym_check(r == !own, "values of its own kind");
  string now; bool gone = rejected([&] { now = p->getFlagArgOptValue(q.flag, q.arg, q.prop, q.opt); });
  if (!r) sym_check(!gone && same(now, w == 7 && k == 'i' ? string(x ? "ON" : "OFF") : k == 'i' ? to_string(x) : k == 'd' ? to_string(d) : k == 's' ? t : k == 'v' ? string(".q .p") : string(".p .q")), "value of the option");
  else if (added) sym_check(!gone && (w == 1 || now == q.dflt), "refused values leave the option");
  else sym_check(gone || w == 1 || now == q.dflt, "refused values leave the option");
  sym_check(rejected([&] { p->setFlagArgOpt(q.flag, "ARGUMENT_OTHER", q.prop, q.opt, x); }) && rejected([&] { p->setFlagArgOpt(q.flag, "ARGUMENT_OTHER", q.prop, q.opt, t); }), "unknown argument");
  sym_obs_int("r", r); sym_reach("given");
}
