// C21: flags of the command line
#include "cli.h"
static const char* LONG_[] = {"--int", "--str", "--sw", "--file", "--dbl", "--in"};
static const char* SHORT_[] = {"-i", "-s", "-w", "-f", "-d", "-in"};
static const char* KIND[] = {"ARGUMENT_INT", "ARGUMENT_STRING", "ARGUMENT_SWITCH", "ARGUMENT_FILE", "ARGUMENT_DOUBLE", "ARGUMENT_INT"};
static const int NF = 6;
static ArgumentParser* parser() {
  set<vector<string>> f;
  for (int i = 0; i < NF; i++) f.insert(flag(LONG_[i], SHORT_[i]));
  ArgumentParser* p = new ArgumentParser(f);
  for (int i = 0; i < NF; i++) p->addFlagArg(LONG_[i], KIND[i]);
  return p;
}
static string num(const char* n) { string s; s += sym_char(n, '0', '9'); s += sym_char((string(n) + "b").c_str(), '0', '9'); return s; }
static int val(const string& s) { return (s[0] - '0') * 10 + (s[1] - '0'); }
static string word(const char* n) { string s; s += sym_char(n, 'a', 'z'); s += sym_char((string(n) + "b").c_str(), '!', '~'); return s; }
static string arg(int k, const char* n) { return k == 1 ? word(n) : k == 3 ? word(n) + ".log" : k == 2 ? string(sym_choose(n, 2) ? "ON" : "OFF") : num(n); }
static void holds(ArgumentParser* p, int k, const string& a) {
  if (k == 0 || k == 5) sym_check(p->getInt(LONG_[k]) == val(a), "whole number");
  if (k == 1 || k == 3) sym_check(same(p->getStr(LONG_[k]), a), "text");
  if (k == 2) sym_check(p->getInt(LONG_[k]) == (a == "ON"), "switch");
  if (k == 4) sym_check_eqd(p->getDouble(LONG_[k]), val(a), "real number");
}
static void absent(ArgumentParser* p, int k) {
  sym_check(rejected([&] { if (k == 0 || k == 2 || k == 5) p->getInt(LONG_[k]); else if (k == 4) p->getDouble(LONG_[k]); else p->getStr(LONG_[k]); }), "no value without the flag");
}
// flags in any order and form
extern "C" void t_order() {
  int n = sym_param("n", 3), used[NF] = {0}; vector<int> k; vector<string> a; Cmd c;
  for (int i = 0; i < n; i++) {
    int x = sym_choose(nm("flag", i).c_str(), NF); if (used[x]) { sym_obs_int("x", 0); return; }
    used[x] = 1; k.push_back(x); a.push_back(arg(x, nm("arg", i).c_str()));
    c(sym_choose(nm("form", i).c_str(), 2) ? LONG_[x] : SHORT_[x])(a[i]);
  }
  ArgumentParser* p = parser();
  sym_check(c.run(*p) == 0, "understood");
  for (int i = 0; i < n; i++) holds(p, k[i], a[i]);
  for (int i = 0; i < NF; i++) if (!used[i]) absent(p, i);
  sym_obs_int("k", k[0]); sym_reach("order");
}
// the last one counts when a flag is repeated, in whatever form
extern "C" void t_repeat() {
  int x = sym_choose("flag", NF); string a = arg(x, "a"), b = arg(x, "b"), o = num("o");
  bool f1 = sym_choose("f1", 2), f2 = sym_choose("f2", 2), mid = sym_choose("between", 2); Cmd c;
  int y = x == 0 ? 5 : 0;
  c(f1 ? LONG_[x] : SHORT_[x])(a); if (mid) c(LONG_[y])(o); c(f2 ? LONG_[x] : SHORT_[x])(b);
  ArgumentParser* p = parser();
  sym_check(c.run(*p) == 0, "understood"); holds(p, x, b); if (mid) holds(p, y, o);
  sym_obs_int("x", x); sym_reach("repeated");
}
// every short word in the place of a flag
extern "C" void t_word() {
  string w = text("w", 1, sym_param("max", 4), '!', 'z'); bool two = sym_choose("value", 2);
  int k = -1; for (int i = 0; i < NF; i++) if (same(w, LONG_[i]) || same(w, SHORT_[i])) k = i;
  int help = same(w, "-h") || same(w, "--help"), ver = same(w, "-v"), cite = same(w, "-cite");
  ArgumentParser* p = parser(); Cmd c; c(w); if (two) c("1");
  int r = c.run(*p);
  if (ver || ((help || cite) && !two)) { sym_check(r == 2, "the program ends"); sym_check(sym_exit_code() == 0, "successfully"); sym_reach("ends"); }
  else if (k >= 0 && (two || k == 2)) { sym_check(r == 0, "flag recognised"); sym_reach("flag"); }
  else { sym_check(r == 1, "anything else is refused"); sym_reach("no flag"); }
  sym_obs_int("r", r);
}
// a flag whose value is missing, a word nobody asked for
extern "C" void t_missing() {
  int x = sym_choose("flag", NF), before = sym_choose("before", 2); bool l = sym_choose("form", 2); Cmd c; string o = num("o");
  int y = x == 0 ? 5 : 0;
  if (before) c(SHORT_[y])(o);
  c(l ? LONG_[x] : SHORT_[x]);
  ArgumentParser* p = parser(); int r = c.run(*p);
  sym_check(r == (x == 2 ? 0 : 1), "missing value reported");
  if (x == 2) sym_check(p->getInt("--sw") == 1, "switch alone is on");
  if (before) holds(p, y, o);
  sym_obs_int("r", r); sym_reach("missing");
}
extern "C" void t_stray() {
  int x = sym_choose("flag", NF), at = sym_choose("at", 2); string w = text("w", 1, 2, 'A', 'z'); Cmd c; string a = arg(x, "a");
  if (at == 0) c(w);
  c(LONG_[x])(a);
  if (at == 1) c(w);
  ArgumentParser* p = parser(); int r = c.run(*p);
  sym_check(r == 1, "stray word refused"); sym_obs_int("r", r); sym_reach("stray");
}
extern "C" void t_none() {
  ArgumentParser* p = parser(); Cmd c; int r = c.run(*p);
  sym_check(r == 1, "empty command line refused"); sym_obs_int("r", r); sym_reach("empty");
}
// a value that looks like a flag is still a value
extern "C" void t_value() {
  int y = sym_choose("other", NF); bool l = sym_choose("form", 2); string v = l ? LONG_[y] : SHORT_[y];
  ArgumentParser* p = parser(); Cmd c; c("--str")(v); string o = num("o"); c("-i")(o);
  sym_check(c.run(*p) == 0, "understood"); sym_check(p->getStr("--str") == v, "text"); holds(p, 0, o);
  sym_obs_int("y", y); sym_reach("value");
}
// requests to end, in any combination
extern "C" void t_ends() {
  static const char* W[] = {"--help", "-h", "--version", "-v", "--citation", "-cite"};
  int n = 1 + sym_choose("n", 3), ver = -1; Cmd c;
  for (int i = 0; i < n; i++) { int k = sym_choose(nm("w", i).c_str(), 6); c(W[k]); if (ver < 0 && (k == 2 || k == 3)) ver = i; }
  ArgumentParser* p = parser(); sym_out_clear(); int r = c.run(*p);
  sym_check(r == 2 && sym_exit_code() == 0, "the program ends successfully");
  sym_obs_int("n", n); sym_reach("requests");
}
// registering flags: names in any order, one long name needed
extern "C" void t_register() {
  static const char* W[] = {"--aa", "-b", "help text", "--cc", "-d", "more text"};
  int n = sym_choose("n", 5), l = 0, s = 0, d = 0; vector<string> f; int has[6] = {0};
  for (int i = 0; i < n; i++) { int k = sym_choose(nm("w", i).c_str(), 6); f.push_back(W[k]); has[k] = 1; (k % 3 == 0 ? l : k % 3 == 1 ? s : d)++; }
  bool good = n <= 3 && l == 1 && s <= 1 && d <= 1;
  ArgumentParser* p = nullptr; set<vector<string>> fl; fl.insert(f);
  bool r = rejected([&] { p = new ArgumentParser(fl); });
  sym_check(r == !good, "exactly one long name, at most one short name and text");
  if (!r) {
    string L = has[0] ? "--aa" : "--cc"; p->addFlagArg(L, "ARGUMENT_INT"); string a = num("a");
    if (s) { sym_check(Cmd()(has[1] ? "-b" : "-d")(a).run(*p) == 0, "short form"); sym_check(p->getInt(L) == val(a), "whole number"); }
    string b = num("b");
    sym_check(Cmd()(L)(b).run(*p) == 0, "long form"); sym_check(p->getInt(L) == val(b), "whole number");
    sym_reach("registered");
  } else sym_reach("not registered");
  sym_obs_int("r", r);
}

// two parsers in one program keep their own flags and values, whatever the other one was given
extern "C" void t_two() {
  int first = sym_choose("first", 2), bad = sym_choose("bad", 2), x = sym_choose("flag", NF); string a = arg(x, "a"), b = num("b"), d = num("d");
  ArgumentParser* p = parser(); set<vector<string>> f; f.insert(flag("--int", "-x")); f.insert(flag("--more", "-i")); ArgumentParser* q = new ArgumentParser(f); q->addFlagArg("--int", "ARGUMENT_INT"); q->addFlagArg("--more", "ARGUMENT_INT");
  if (bad) sym_check(Cmd()("--nothing")("1").run(first ? *p : *q) == 1, "unknown flag refused");
  auto runP = [&] { sym_check(Cmd()(SHORT_[x])(a).run(*p) == 0, "understood"); }; auto runQ = [&] { sym_check(Cmd()("-i")(b)("-x")(d).run(*q) == 0, "understood by the other"); };
  if (first) { runP(); runQ(); } else { runQ(); runP(); }
  holds(p, x, a); for (int i = 0; i < NF; i++) if (i != x) absent(p, i);
  sym_check(q->getInt("--more") == val(b) && q->getInt("--int") == val(d), "values of the other");
  sym_check(Cmd()(LONG_[1])("w").run(*q) == 1, "flags of one parser are unknown to the other");
  sym_obs_int("x", x); sym_reach("two parsers");
}
// many flags, given in any rotation
extern "C" void t_many() {
  int n = sym_param("n", 24), k = sym_choose("turn", 5) * (n / 5), w = sym_choose("back", 2); set<vector<string>> f; vector<string> L, S, a;
  for (int i = 0; i < n; i++) { L.push_back("--a_rather_long_name_of_flag_" + to_string(i)); S.push_back((i % 3 ? "-f" : "-another_short_name") + to_string(i)); f.insert(flag(L[i].c_str(), S[i].c_str())); }
  ArgumentParser p(f); for (int i = 0; i < n; i++) p.addFlagArg(L[i], i % 4 == 3 ? "ARGUMENT_STRING" : "ARGUMENT_INT");
  for (int i = 0; i < n; i++) a.push_back(i % 4 == 3 ? "word" + to_string(i) : i == 0 || i == n / 2 || i == n - 4 ? num(nm("v", i).c_str()) : to_string(10 + i));
  Cmd c; for (int q = 0; q < n; q++) { int i = (w ? n - 1 - q + k : q + k) % n; c(i % 2 ? L[i] : S[i])(a[i]); }
  sym_check(c.run(p) == 0, "understood");
  for (int i = 0; i < n; i++) if (i % 4 == 3) sym_check(p.getStr(L[i]) == a[i], "text"); else sym_check(p.getInt(L[i]) == val(a[i]), "whole number");
  sym_obs_int("k", k); sym_reach("many flags");
}
// several command lines one after the other, of one parser or of several: each has its own outcome
extern "C" void t_history() {
  int n = sym_param("n", 3), one = sym_choose("one", 2); ArgumentParser* p = parser();
  for (int q = 0; q < n; q++) {
    int k = sym_choose(nm("line", q).c_str(), 8); string a = num(nm("a", q).c_str()); Cmd c; if (!one) p = parser();
    if (k == 0) c("--int")(a); if (k == 1) c("--help"); if (k == 2) c("-h")("--nothing"); if (k == 3) c("--help")("-h"); if (k == 4) c("--int"); if (k == 5) c("-v"); if (k == 6) c("--citation"); if (k == 7) c("--int")(a)("stray");
    int r = c.run(*p), ends = k == 1 || k == 3 || k == 5 || k == 6;
    sym_check(r == (k == 0 ? 0 : ends ? 2 : 1), "outcome of this command line"); if (ends) sym_check(sym_exit_code() == 0, "ends successfully");
    if (k == 0) holds(p, 0, a);
    sym_obs_int("r", r);
  }
  sym_reach("history");
}
