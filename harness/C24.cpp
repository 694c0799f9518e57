// C24: file arguments and their companion files
#include "cli.h"
#include "io/arguments/argumentfile.hpp"
#include "io/arguments/properties/propertyfileext.hpp"
#include "io/arguments/properties/propertyfileexist.hpp"
#include "io/arguments/properties/propertysisterfile.hpp"
static string extOf(const string& n) {
  int k = lastAt(n, "/"); string b = cut(n, k + 1, n.size());
  int d = lastAt(b, "."); return d < 0 ? "" : cut(b, d, b.size());
}
static string coreOf(const string& n, string& dir) {
  int k = lastAt(n, "/"); dir = cut(n, 0, k + 1); string b = cut(n, k + 1, n.size());
  int d = lastAt(b, "."); return d < 0 ? b : cut(b, 0, d);
}
static set<string> allowed(int k) {
  set<string> s;
  if (k == 0) s.insert(".log"); else if (k == 1) { s.insert(".orb"); s.insert(".7"); s.insert(".pun"); } else if (k == 2) s.insert(""); else if (k == 3) { s.insert(".a"); s.insert(""); } else s.insert("*");
  return s;
}
static ArgumentParser* parser() {
  set<vector<string>> f; f.insert(flag("--file", "-f")); f.insert(flag("--other", "-o"));
  ArgumentParser* p = new ArgumentParser(f); p->addFlagArg("--other", "ARGUMENT_INT"); return p;
}
static string val(ArgumentParser* p, const char* prop, const char* opt) { return p->getFlagArgOptValue("--file", "ARGUMENT_FILE", prop, opt); }
// every name against the allowed extensions
extern "C" void t_ext() {
  int k = sym_choose("allowed", 5); set<string> a = allowed(k);
  string n = text("n", 1, sym_param("max", 5), '.', 'z'), e = extOf(n); int good = k == 4;
  for (auto& x : a) good = sym_or(good, same(x, e));
  PropertyFileExt* q = k == 4 ? new PropertyFileExt : sym_choose("how", 2) ? new PropertyFileExt(a) : new PropertyFileExt;
  if (k < 4) q->setPropOption("ALLOWED_FILE_EXT", a);
  bool r = rejected([&] { q->propValid(n); });
  sym_check(r ? sym_ite(good, 0, 1) : good, "exactly the allowed extensions");
  sym_obs_int("r", r); sym_reach(r ? "wrong kind" : "right kind");
}
extern "C" void t_near() {
  static const char* N[] = {"a.log", "a.pun", "a.7", "a.orb", "a", "a.log.pun", "a.pun.log", "d.log/a", "d.pun/a.log", ".log", "a.", "a.LOG", "a.logg", "a.lo", "alog", "d/.7", "a.a", "/x/y.7", "x.1.2.7"};
  int i = sym_choose("name", sizeof N / sizeof *N), k = sym_choose("allowed", 5); string n = N[i], e = extOf(n); set<string> a = allowed(k);
  ArgumentParser* p = parser(); bool def = k == 4 && sym_choose("default", 2);
  if (def) p->addFlagArg("--file", "ARGUMENT_FILE");
  else if (a.size() == 1 && sym_choose("one", 2)) p->setFlagArgOpt("--file", "ARGUMENT_FILE", "PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", *a.begin());
  else p->setFlagArgOpt("--file", "ARGUMENT_FILE", "PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", a);
  int good = k == 4 || a.count(e), r = Cmd()("-f")(n).run(*p);
  sym_check((r == 0) == good, "exactly the allowed extensions");
  if (r == 0) sym_check(p->getStr("--file") == n, "the file given");
  sym_obs_int("r", r); sym_reach("names");
}
// existence: recorded, and required where asked for
extern "C" void t_exist() {
  static const char* N[] = {"a.log", "d/a.log", "a.pun", "a"}; int have[4], want = sym_choose("want", 4), must = sym_choose("must", 2), given = sym_choose("given", 3);
  for (int i = 0; i < 4; i++) { have[i] = sym_choose(nm("have", i).c_str(), 2); if (have[i]) sym_file(N[i], "x", 1); }
  ArgumentParser* p = parser();
  p->setFlagArgOpt("--file", "ARGUMENT_FILE", "PROPERTY_FILE_EXIST", "FILE_MUST_EXIST", must);
  Cmd c; if (given) c(given == 2 ? "-f" : "--file")(N[want]); c("-o")("4");
  int r = c.run(*p);
  sym_check((r == 0) == !(must && (!given || !have[want])), "a required file has to exist");
  if (r == 0) {
    sym_check(val(p, "PROPERTY_FILE_EXIST", "FILE_DOES_EXIST") == (given && have[want] ? "1" : "0"), "existence recorded");
    sym_check(val(p, "PROPERTY_FILE_EXIST", "FILE_MUST_EXIST") == (must ? "1" : "0"), "requirement kept");
    if (given) sym_check(p->getStr("--file") == N[want], "the file given");
    sym_reach("exists");
  } else sym_reach("missing");
  sym_obs_int("r", r);
}
// several file arguments, each with its own requirement
extern "C" void t_many() {
  static const char* FL[] = {"--alpha", "--beta", "--gamma"}; static const char* N[] = {"a.log", "b.log", "c.log"}; set<vector<string>> f; for (auto x : FL) f.insert(flag(x, x == FL[0] ? "-a" : x == FL[1] ? "-b" : "-c")); f.insert(flag("--other", "-o"));
  ArgumentParser p(f); p.addFlagArg("--other", "ARGUMENT_INT"); bool bad = false; Cmd c; c("-o")("4"); int have[3], given[3];
  for (int i = 0; i < 3; i++) {
    have[i] = sym_choose(nm("have", i).c_str(), 2); given[i] = sym_choose(nm("given", i).c_str(), 2); int must = sym_choose(nm("must", i).c_str(), 2);
    if (have[i]) sym_file(N[i], "x", 1);
    p.setFlagArgOpt(FL[i], "ARGUMENT_FILE", "PROPERTY_FILE_EXIST", "FILE_MUST_EXIST", must); if (given[i]) c(FL[i])(N[i]);
    if (must && !(given[i] && have[i])) bad = true;
  }
  int r = c.run(p); sym_check((r == 0) == !bad, "a required file has to exist");
  if (r == 0) for (int i = 0; i < 3; i++) sym_check(p.getFlagArgOptValue(FL[i], "ARGUMENT_FILE", "PROPERTY_FILE_EXIST", "FILE_DOES_EXIST") == (given[i] && have[i] ? "1" : "0"), "existence recorded");
  sym_obs_int("r", r); sym_reach("several");
}
// existence of the last one named counts
extern "C" void t_again() {
  int a = sym_choose("a", 2), b = sym_choose("b", 2); if (a) sym_file("a.log", "x", 1); if (b) sym_file("b.log", "x", 1);
  ArgumentParser* p = parser(); p->addFlagArg("--file", "ARGUMENT_FILE");
  sym_check(Cmd()("-f")("a.log")("-f")("b.log").run(*p) == 0, "understood");
  sym_check(val(p, "PROPERTY_FILE_EXIST", "FILE_DOES_EXIST") == (b ? "1" : "0"), "existence recorded");
  sym_obs_int("b", b); sym_reach("again");
}
// names of companion files
extern "C" void t_names() {
  string n = text("n", 1, sym_param("max", 5), '.', '9'), dir, core = coreOf(n, dir); int k = 1 + sym_choose("exts", 3);
  static const char* E[] = {".orb", ".7", ".pun"}; vector<string> e(E, E + k);
  PropertySisterFile q; q.setPropOption("ALLOWED_SISTER_FILE_EXT", e); q.propValid(n);
  vector<string> f = q.getPropOption("SISTER_FILE_NAME"), d = q.getPropOption("SISTER_FILE_PATH"), pn = q.getPropOption("SISTER_FILE_PATH_NAME"), x = q.getPropOption("SISTER_FILE_EXISTS");
  sym_check((int)f.size() == k && (int)d.size() == k && (int)pn.size() == k && (int)x.size() == k, "one for every extension");
  if ((int)f.size() == k && (int)d.size() == k && (int)pn.size() == k && (int)x.size() == k)
    for (int i = 0; i < k; i++) {
      sym_check(same(f[i], core + E[i]), "name of the companion"); sym_check(same(d[i], dir), "directory of the companion");
      sym_check(same(pn[i], dir + core + E[i]), "path of the companion"); sym_check(x[i] == "false", "nothing exists");
    }
  sym_obs_int("n", (int)n.size()); sym_reach("companions");
}
// which companions exist
extern "C" void t_sister() {
  static const char* N[] = {"a.log", "d/a.log", "d.e/a.b.log", "./a.log", "a", "a b.log", "d e/f  g.h"}; static const char* C[] = {"a", "d/a", "d.e/a.b", "./a", "a", "a b", "d e/f  g"};
  static const char* E[] = {".orb", ".7", ".pun", ".log"}; int w = sym_choose("want", 7), k = sym_choose("exts", 4), have[4]; vector<string> e(E, E + k);
  for (int i = 0; i < 4; i++) { have[i] = sym_choose(nm("have", i).c_str(), 2); if (have[i]) sym_file((string(C[w] + (w == 3 ? 2 : 0)) + E[i]).c_str(), "x", 1); }
  ArgumentParser* p = parser();
  if (k) p->setFlagArgOpt("--file", "ARGUMENT_FILE", "PROPERTY_SISTER_FILE", "ALLOWED_SISTER_FILE_EXT", e); else p->addFlagArg("--file", "ARGUMENT_FILE");
  sym_check(Cmd()("-f")(N[w]).run(*p) == 0, "understood");
  string x, pn, f;
  for (int i = 0; i < k; i++) { if (i) { x += " "; pn += " "; } x += have[i] ? "true" : "false"; pn += string(C[w]) + E[i]; }
  sym_check(val(p, "PROPERTY_SISTER_FILE", "SISTER_FILE_EXISTS") == x, "companions that exist");
  sym_check(val(p, "PROPERTY_SISTER_FILE", "SISTER_FILE_PATH_NAME") == pn, "paths of the companions");
  sym_obs_int("k", k); sym_reach("exist");
}
// every extension a companion can have
extern "C" void t_sisext() {
  string e = text("e", 0, sym_param("max", 4), '.', 'z'); int good = 0;
  if (e.empty()) good = 1; else { int l = lastAt(e, "."); good = l == 0; }
  PropertySisterFile q; vector<string> v; v.push_back(".log"); v.push_back(e);
  bool one = sym_choose("one", 2);
  bool r = rejected([&] { if (one) q.setPropOption("ALLOWED_SISTER_FILE_EXT", e); else q.setPropOption("ALLOWED_SISTER_FILE_EXT", v); });
  sym_check(r == !good, "an extension starts with its only point");
  vector<string> g = q.getPropOption("ALLOWED_SISTER_FILE_EXT");
  if (r) sym_check(g.size() == 1 && g[0] == "NOT_DEFINED", "refused extension leaves the earlier ones");
  else sym_check(one ? g.size() == 1 && same(g[0], e) : g.size() == 2 && same(g[0], ".log") && same(g[1], e), "extensions kept");
  sym_obs_int("r", r); sym_reach(r ? "bad extension" : "extension");
}
// the properties made with a value
extern "C" void t_made() {
  string e = text("e", 0, sym_param("max", 3), '*', 'z'); int l = lastAt(e, "."); int good = e.empty() ? 1 : e[0] == '*' ? 1 : l <= 0;
  PropertyFileExt* q = nullptr; bool one = sym_choose("one", 2); set<string> v; v.insert(e); v.insert(".log");
  bool r = rejected([&] { q = one ? new PropertyFileExt(e) : new PropertyFileExt(v); });
  if (l > 0 && e[0] != '*') sym_check(r, "an extension starts with its only point");
  if (e.empty() || (l == 0 && e.size() > 1)) sym_check(!r, "an extension");
  if (!r && !one) sym_check(q->propValid("d/x.log"), "the other extension");
  if (!r && l == 0 && e.size() > 1 && firstAt(e, "/") < 0) {
    sym_check(!rejected([&] { q->propValid("a.b" + e); }), "files of this kind");
    sym_check(rejected([&] { q->propValid("a" + e + "x"); }), "no files of other kinds");
  }
  sym_obs_int("r", r); sym_reach(r ? "not made" : "made"); (void)good;
}
extern "C" void t_must() {
  int must = sym_choose("must", 2), have = sym_choose("have", 2), ask = sym_choose("ask", 2); if (have) sym_file("a.log", "x", 1);
  PropertyFileExist q(must); sym_check(q.getPropOption("FILE_MUST_EXIST") == must && q.getPropOption("FILE_DOES_EXIST") == 0, "as made");
  bool r = false; if (ask) r = rejected([&] { q.propValid("a.log"); });
  sym_check(r == (ask && must && !have), "a required file has to exist");
  sym_check(q.getPropOption("FILE_DOES_EXIST") == (ask && have), "existence recorded");
  sym_check(rejected([&] { q.postCheck(); }) == (must && !(ask && have)), "a required file is missing in the end");
  sym_obs_int("r", r); sym_reach("required");
}
// long names in deep folders
extern "C" void t_long() {
  static const int LEN[] = {12, 128, 260}; static const char* E[] = {".log", ".7", "", ".logx"}; int k = sym_choose("allowed", 3), s = sym_choose("exts", 4);
  string n = (sym_choose("folder", 2) ? "a.pun/b.log/" : "") + longText("n", LEN[sym_choose("len", 3)], '.', '1') + E[sym_choose("e", 4)], e = extOf(n), dir, core = coreOf(n, dir); set<string> a = allowed(k == 2 ? 3 : k);
  PropertyFileExt q(a); sym_check(rejected([&] { q.propValid(n); }) == !a.count(e), "exactly the allowed extensions");
  PropertySisterFile f; vector<string> x; if (s < 3) x.push_back(s == 0 ? ".log" : s == 1 ? ".7" : ".fchk_of_a_kind"); if (s == 3) { x.push_back(".orb"); x.push_back(".pun"); }
  f.setPropOption("ALLOWED_SISTER_FILE_EXT", x); f.propValid(n); vector<string> pn = f.getPropOption("SISTER_FILE_PATH_NAME"), fn = f.getPropOption("SISTER_FILE_NAME"), d = f.getPropOption("SISTER_FILE_PATH");
  sym_check(pn.size() == x.size() && fn.size() == x.size() && d.size() == x.size(), "one for every extension");
  for (size_t i = 0; i < x.size() && i < pn.size() && i < fn.size() && i < d.size(); i++) { sym_check(pn[i] == dir + core + x[i], "path of the companion"); sym_check(fn[i] == core + x[i], "name of the companion"); sym_check(d[i] == dir, "directory of the companion"); }
  sym_obs_int("k", k); sym_reach("long names");
}
