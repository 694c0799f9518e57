// C23: switches, choices and defaults
#include "cli.h"
#include "io/arguments/argumentswitch.hpp"
#include "io/arguments/properties/propertyswitch.hpp"
#include "io/arguments/properties/propertystringchoice.hpp"
static ArgumentParser* parser() {
  set<vector<string>> f; f.insert(flag("--sw", "-s")); f.insert(flag("--other", "-o")); f.insert(flag("--pick", "-p"));
  ArgumentParser* p = new ArgumentParser(f);
  p->addFlagArg("--sw", "ARGUMENT_SWITCH"); p->addFlagArg("--other", "ARGUMENT_INT"); p->addFlagArg("--pick", "ARGUMENT_STRING"); return p;
}
static int on(const string& w) { return sym_or(same(w, "ON"), sym_or(same(w, "TRUE"), same(w, "1"))); }
static int off(const string& w) { return sym_or(same(w, "OFF"), sym_or(same(w, "FALSE"), same(w, "0"))); }
static int dflt(ArgumentParser* p) {  // 0 none, 1 off, 2 on
  int d = sym_choose("default", 4);
  if (d == 1) p->setFlagDefaultValue("--sw", string("OFF")); if (d == 2) p->setFlagDefaultValue("--sw", string("ON"));
  if (d == 3) { int v = sym_choose("number", 2); p->setFlagDefaultValue("--sw", v); d = 1 + v; }
  return d;
}
static void isSet(ArgumentParser* p, int v) {
  sym_check(p->getInt("--sw") == v, "switch as a number");
}
// every word after the switch
extern "C" void t_word() {
  ArgumentParser* p = parser(); dflt(p);
  string w = text("w", 1, sym_param("max", 5), '0', 'z'); bool l = sym_choose("form", 2), more = sym_choose("more", 2);
  int a = on(w), b = off(w); Cmd c; c(l ? "--sw" : "-s")(w); if (more) c("-o")("7");
  int r = c.run(*p);
  sym_check(r == 0 ? sym_or(a, b) : sym_ite(sym_or(a, b), 0, 1), "exactly the six words");
  if (r == 0) { isSet(p, a); if (more) sym_check(p->getInt("--other") == 7, "next flag"); sym_reach("word"); } else sym_reach("refused");
  sym_obs_int("r", r);
}
// without a value: on; absent: the default; wherever it stands
extern "C" void t_place() {
  ArgumentParser* p = parser(); int d = dflt(p), at = sym_choose("at", 4), with = sym_choose("with", 3); Cmd c;
  static const char* W[] = {"", "ON", "OFF"};
  auto put = [&] { c(sym_choose("form", 2) ? "--sw" : "-s"); if (with) c(W[with]); };
  if (at == 0) put();
  c("-o")("3");
  if (at == 1) put();
  c("-p")("x");
  if (at == 2) put();
  sym_check(c.run(*p) == 0, "understood");
  if (at < 3) { isSet(p, with != 2); sym_check(on(p->getStr("--sw")) == (with != 2), "switch as a word"); }
  else if (d) { isSet(p, d == 2); sym_check(p->getStr("--sw") == (d == 2 ? "ON" : "OFF"), "default as a word"); }
  else { sym_check(rejected([&] { p->getInt("--sw"); }), "no value"); sym_check(rejected([&] { p->getStr("--sw"); }), "no word"); }
  sym_check(p->getInt("--other") == 3, "other flag"); sym_check(p->getStr("--pick") == "x", "text flag");
  sym_obs_int("at", at * 4 + with); sym_reach("place");
}
// every word against the documented choices
extern "C" void t_choice() {
  ArgumentParser* p = parser(); int how = sym_choose("choices", 3); set<string> s; vector<string> v;
  if (how == 0) { v.push_back("HOMO"); v.push_back("LUMO"); } else if (how == 1) { v.push_back("Alpha"); v.push_back("Beta"); v.push_back("Alp"); } else v.push_back("A");
  for (auto& x : v) s.insert(x);
  bool e = sym_choose("enforced", 2);
  if (e) p->setFlagArgOpt("--pick", "ARGUMENT_STRING", "PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", string("true"));
  if (how == 2) p->setFlagArgOpt("--pick", "ARGUMENT_STRING", "PROPERTY_STRING_CHOICE", "STRING_CHOICES", string("A"));
  else p->setFlagArgOpt("--pick", "ARGUMENT_STRING", "PROPERTY_STRING_CHOICE", "STRING_CHOICES", s);
  p->setFlagDefaultValue("--pick", v[0]);
  string w = text("w", 1, sym_param("max", 5), 'A', 'z'); int good = 0; for (auto& x : v) good = sym_or(good, same(w, x));
  if (!e) good = 1;
  int r = Cmd()("-p")(w).run(*p);
  sym_check(r ? sym_ite(good, 0, 1) : good, "exactly the registered words");
  if (r == 0) { sym_check(same(p->getStr("--pick"), w), "chosen word"); sym_reach("chosen"); } else sym_reach("not chosen");
  sym_obs_int("r", r);
}
// any two registered words
extern "C" void t_set() {
  PropertyStringChoice c; string a = text("a", 0, 2, 'a', 'c'), b = text("b", 1, 2, 'a', 'c'), w = text("w", 0, 2, 'a', 'd'); int order = sym_choose("order", 2);
  set<string> s; s.insert(a); s.insert(b);
  if (order) c.setPropOption("STRING_CHOICES", s);
  c.setPropOption("STRING_CHOICE_ENFORCED", string("true"));
  if (!order) c.setPropOption("STRING_CHOICES", s);
  bool r = rejected([&] { c.propValid(w); }); int good = sym_or(same(w, a), same(w, b));
  sym_check(r ? sym_ite(good, 0, 1) : good, "exactly the registered words");
  sym_check(!rejected([&] { c.setPropOption("STRING_CHOICE_ENFORCED", string("false")); c.propValid(w); }), "anything when not enforced");
  sym_obs_int("r", r); sym_reach("two words");
}
// absent flags have their defaults, given ones do not
extern "C" void t_default() {
  ArgumentParser* p = parser(); int v = sym_int("v", -2147483647 - 1, 2147483647), has = sym_choose("has", 2), given = sym_choose("given", 4);
  string t = text("t", 0, 2, 'a', 'z');
  if (has) { p->setFlagDefaultValue("--other", v); p->setFlagDefaultValue("--pick", t); }
  Cmd c; if (given & 1) c("--other")("5"); if (given & 2) c("--pick")("zz"); if (given == 0) c("-s");
  sym_check(c.run(*p) == 0, "understood");
  if (given & 1) sym_check(p->getInt("--other") == 5, "given number"); else if (has) sym_check(p->getInt("--other") == v, "default number"); else sym_check(rejected([&] { p->getInt("--other"); }), "no number");
  if (given & 2) sym_check(p->getStr("--pick") == "zz", "given text"); else if (has) sym_check(same(p->getStr("--pick"), t), "default text"); else sym_check(rejected([&] { p->getStr("--pick"); }), "no text");
  sym_obs_int("g", given); sym_reach("default");
}
// the words of a switch by themselves
extern "C" void t_words() {
  string w = text("w", 0, sym_param("max", 5), '0', 'z'); int a = on(w), b = off(w), r = -1;
  ArgumentSwitch s; bool ref = rejected([&] { r = s.positive(w); });
  sym_check(ref ? sym_ite(sym_or(a, b), 0, 1) : sym_or(a, b), "exactly the six words");
  if (!ref) sym_check(r == a, "on or off");
  sym_check(rejected([&] { s.argValid(w); }) == ref, "valid exactly when it has a meaning");
  sym_obs_int("r", r); sym_reach("words");
}
extern "C" void t_numbers() {
  PropertySwitch q; int v = sym_int("v", -2147483647 - 1, 2147483647);
  bool r = rejected([&] { q.propValid(v); }); int good = sym_or(v == 0, v == 1);
  sym_check(r ? sym_ite(good, 0, 1) : good, "only 0 and 1"); sym_obs_int("r", r); sym_reach("numbers");
}
// defaults of every kind: each by itself, the last one counts
extern "C" void t_kinds() {
  static const char* F[] = {"--other", "--pick", "--switch"}; ArgumentParser* p = parser();
  int iv[3], dset[3] = {0}, iset[3] = {0}, zset[3] = {0}, sset[3] = {0}; double dv[3]; size_t zv[3]; string sv[3];
  for (int i = 0; i < sym_param("n", 3); i++) {
    int f = sym_choose(nm("flag", i).c_str(), 2), k = sym_choose(nm("kind", i).c_str(), 4);
    if (k == 0) { iv[f] = sym_int(nm("i", i).c_str(), -2147483647 - 1, 2147483647); iset[f] = 1; p->setFlagDefaultValue(F[f], iv[f]); }
    if (k == 1) { dv[f] = dbl(nm("d", i), -1e6, 1e6); dset[f] = 1; p->setFlagDefaultValue(F[f], dv[f]); }
    if (k == 2) { zv[f] = (size_t)sym_i64(nm("z", i).c_str(), 0, 9000000000000000000l); zset[f] = 1; p->setFlagDefaultValue(F[f], zv[f]); }
    if (k == 3) { sv[f] = text(nm("s", i).c_str(), 0, 1, 'a', 'z'); sset[f] = 1; p->setFlagDefaultValue(F[f], sv[f]); }
  }
  for (int f = 0; f < 2; f++) {
    if (iset[f]) sym_check(p->getInt(F[f]) == iv[f], "whole number"); else sym_check(rejected([&] { p->getInt(F[f]); }), "no whole number");
    if (dset[f]) sym_check_eqd(p->getDouble(F[f]), dv[f], "real number"); else sym_check(rejected([&] { p->getDouble(F[f]); }), "no real number");
    if (zset[f]) sym_check(p->getSize_t(F[f]) == zv[f], "size"); else sym_check(rejected([&] { p->getSize_t(F[f]); }), "no size");
    if (sset[f]) sym_check(same(p->getStr(F[f]), sv[f]), "text"); else sym_check(rejected([&] { p->getStr(F[f]); }), "no text");
  }
  sym_obs_int("i", iset[0]); sym_reach("kinds");
}

// two parsers in one program keep their own choices and defaults
extern "C" void t_two() {
  ArgumentParser *p = parser(), *q = parser(); int first = sym_choose("first", 2), given = sym_choose("given", 3);
  auto setup = [](ArgumentParser* r, const char* a, const char* b, const char* d, const char* sw) {
    set<string> s; s.insert(a); s.insert(b); r->setFlagArgOpt("--pick", "ARGUMENT_STRING", "PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", string("true"));
    r->setFlagArgOpt("--pick", "ARGUMENT_STRING", "PROPERTY_STRING_CHOICE", "STRING_CHOICES", s); r->setFlagDefaultValue("--pick", string(d)); r->setFlagDefaultValue("--sw", string(sw)); };
  if (first) { setup(p, "a", "b", "a", "OFF"); setup(q, "b", "c", "c", "ON"); } else { setup(q, "b", "c", "c", "ON"); setup(p, "a", "b", "a", "OFF"); }
  string w = text("w", 1, 1, 'A', 'z'); int r = 0, inP = sym_or(same(w, "a"), same(w, "b")), inQ = sym_or(same(w, "b"), same(w, "c"));
  if (given) r = Cmd()("-p")(w)("-o")("1").run(given == 1 ? *p : *q); else Cmd()("-o")("1").run(*p);
  sym_check(Cmd()("-o")("2").run(given == 2 ? *p : *q) == 0, "understood");
  int good = given == 1 ? inP : given == 2 ? inQ : 1;
  sym_check(r == 0 ? good : sym_ite(good, 0, 1), "the choices of this parser"); if (r) { sym_reach("another parser's word"); return; }
  sym_check(same(p->getStr("--pick"), given == 1 ? w : string("a")) && same(q->getStr("--pick"), given == 2 ? w : string("c")), "choice or default of each");
  sym_check(p->getInt("--sw") == 0 && q->getInt("--sw") == 1, "default switch of each"); sym_obs_int("r", r); sym_reach("two parsers");
}
// many and long words to choose from
extern "C" void t_long() {
  static const int LEN[] = {10, 35, 130}; int n = 1 + sym_choose("n", 3) * 10, l = LEN[sym_choose("len", 3)], at = sym_choose("at", 3) * (n - 1) / 2; vector<string> v; set<string> s;
  for (int i = 0; i < n; i++) { string w; for (int q = 0; q < l; q++) w += (char)('a' + (q * 7 + (q == l - 1 || q == l / 2 ? i : 0)) % 26); v.push_back(w); s.insert(w); }
  ArgumentParser* p = parser(); p->setFlagArgOpt("--pick", "ARGUMENT_STRING", "PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", string("true")); p->setFlagArgOpt("--pick", "ARGUMENT_STRING", "PROPERTY_STRING_CHOICE", "STRING_CHOICES", s);
  string w = v[at]; int k = sym_choose("change", 5); if (k < 3) w[k == 0 ? 0 : k == 1 ? l / 2 : l - 1] = sym_char("c", 'A', 'z'); if (k == 3) w += sym_char("c", '!', '~'); if (k == 4) w = w.substr(0, l - 1);
  int good = 0; for (auto& x : v) good = sym_or(good, same(w, x)); int r = Cmd()("-p")(w).run(*p);
  sym_check(r == 0 ? good : sym_ite(good, 0, 1), "exactly the words to choose from"); if (r == 0) sym_check(same(p->getStr("--pick"), w), "the word given"); sym_obs_int("r", r); sym_reach("many words");
}
