// C29: the help text
#include "cli.h"
#include <algorithm>
namespace catnip { std::unique_ptr<ArgumentParser> prepareParser(void); }
// the printed text as words (white space separated)
static vector<string> words() {
  vector<string> w; string c; const char* t = sym_out_text();
  for (; *t; t++) {
    if (sym_or(*t == ' ', sym_or(*t == '\n', *t == '\t'))) { if (!c.empty()) w.push_back(c); c.clear(); } else c += *t;
  }
  if (!c.empty()) w.push_back(c);
  return w;
}
struct Flag { string l, s; vector<string> d; };
static vector<string> entry(const Flag& f) { vector<string> v, e; string t; for (auto& x : f.d) { if (!t.empty()) t += " "; t += x; } v.push_back(f.l); if (!f.s.empty()) v.push_back(f.s); if (!t.empty()) v.push_back(t); return v; }
static int at(const vector<string>& w, size_t i, const string& s) { return i < w.size() ? same(w[i], s) : 0; }
// every flag once, followed by its short form and its description
static void listed(const vector<string>& w, const vector<Flag>& fl) {
  for (auto& f : fl) {
    int n = 0, good = 0;
    for (size_t i = 0; i < w.size(); i++) if (same(w[i], f.l)) {
      n++; good = 0;
      for (size_t k0 = i + 1; k0 <= i + 1 + f.s.empty(); k0++) {  // a missing short form may be stated
        size_t k = k0; int ok = 1;
        if (!f.s.empty()) ok = sym_and(ok, at(w, k++, f.s));
        for (auto& d : f.d) ok = sym_and(ok, at(w, k++, d));
        if (!f.d.empty()) { int end = k == w.size(); if (!end) end = sym_and(w[k][0] == '-', w[k].size() > 1); ok = sym_and(ok, end); }
        good = sym_or(good, ok);
      }
    }
    sym_check(n == 1, "every flag is listed once");
    sym_check(good, "followed by its short form and its description");
  }
}
static string lower(const string& n, int len) { string s; for (int i = 0; i < len; i++) s += sym_char(nm(n.c_str(), i).c_str(), 'a', 'z'); return s; }
static Flag help() { Flag h; h.l = "--help"; h.s = "-h"; h.d.push_back("Display"); h.d.push_back("help"); h.d.push_back("message"); return h; }
static void show(const vector<Flag>& fl) {
  set<vector<string>> s; for (auto& f : fl) s.insert(entry(f));
  ArgumentParser* p = new ArgumentParser(s); sym_out_clear(); p->showUsage();
  vector<Flag> all = fl; all.push_back(help());
  vector<string> w = words(); listed(w, all); sym_obs_int("words", (int)w.size());
}
// short descriptions, names of different lengths, with and without a short form
extern "C" void t_few() {
  static const int LEN[] = {1, 3, 9, 40};
  int n = 1 + sym_choose("n", 2); vector<Flag> fl;
  for (int i = 0; i < n; i++) {
    Flag f; string x = nm("f", i); f.l = "--" + string(1, (char)('a' + i)) + lower(x + "l", LEN[sym_choose((x + "len").c_str(), 4)]);
    int s = sym_choose((x + "short").c_str(), 3); if (s) f.s = "-" + string(1, (char)('A' + i)) + lower(x + "s", s * 2 - 2);
    int d = sym_choose((x + "words").c_str(), 3); for (int k = 0; k < d; k++) f.d.push_back(lower(nm((x + "d").c_str(), k), 1 + 2 * k));
    fl.push_back(f);
  }
  show(fl); sym_reach("few");
}
// descriptions of any length, long words
extern "C" void t_long() {
  int n = 1 + sym_choose("n", sym_param("max", 40)), len = 1 + sym_choose("len", 5) * 6, big = sym_choose("name", 3) * 30; Flag f; f.l = "--name"; f.s = "-n";
  for (int i = 0; i < big; i++) f.l += 'x';
  for (int i = 0; i < n; i++) f.d.push_back(lower(nm("d", i), i % 3 == 1 ? 1 : len));
  Flag g; g.l = "--zero"; g.s = "-z"; g.d.push_back("end");
  vector<Flag> fl; fl.push_back(f); fl.push_back(g); show(fl); sym_reach("long");
}
// asked for on the command line, alone or with other flags
extern "C" void t_request() {
  vector<Flag> fl(2); string v = lower("v", 3); bool l = sym_choose("form", 2), first = sym_choose("first", 2), more = sym_choose("more", 2);
  fl[0].l = "--text"; fl[0].s = "-t"; fl[0].d.push_back("some"); fl[0].d.push_back("text"); fl[1].l = "--number"; fl[1].s = "-nu"; fl[1].d.push_back("a"); fl[1].d.push_back("number");
  set<vector<string>> s; for (auto& f : fl) s.insert(entry(f));
  ArgumentParser* p = new ArgumentParser(s); p->addFlagArg("--text", "ARGUMENT_STRING"); p->addFlagArg("--number", "ARGUMENT_INT");
  Cmd c; if (more && !first) c("-t")(v); c(l ? "--help" : "-h"); if (more && first) c("-t")(v);
  sym_out_clear(); int r = c.run(*p); vector<Flag> all = fl; all.push_back(help()); vector<string> w = words();
  listed(w, all); sym_check(at(w, 0, "Usage:"), "usage line"); sym_check(at(w, 1, "calc_J"), "program name");
  if (!more) sym_check(r == 2 && sym_exit_code() == 0, "the program ends successfully");
  sym_obs_int("r", r); sym_reach("request");
}
// an empty command line shows it as well
extern "C" void t_empty() {
  Flag f; f.l = "--text"; f.s = "-t"; f.d.push_back(lower("d", 4)); set<vector<string>> s; s.insert(entry(f));
  ArgumentParser* p = new ArgumentParser(s); sym_out_clear(); int r = Cmd().run(*p); vector<string> w = words();
  vector<Flag> all; all.push_back(f); all.push_back(help()); listed(w, all); sym_check(r == 1, "refused"); sym_obs_int("r", r); sym_reach("empty");
}
// the flags of calc_J
extern "C" void t_program() {
  static const char* F[][2] = {{"--pun_P", "-p_P"}, {"--pun_1", "-p_1"}, {"--pun_2", "-p_2"}, {"--orbital_type_1", "-orb_ty_1"}, {"--orbital_type_2", "-orb_ty_2"},
    {"--log_P", "-l_P"}, {"--log_1", "-l_1"}, {"--log_2", "-l_2"}, {"--spin_P", "-s_P"}, {"--spin_1", "-s_1"}, {"--spin_2", "-s_2"}, {"--orbital_num_1", "-orb_num_1"}, {"--orbital_num_2", "-orb_num_2"},
    {"--counter_poise", "-cp"}, {"--citation", "-cite"}, {"--version", "-v"}, {"--help", "-h"}};
  std::unique_ptr<ArgumentParser> p = prepareParser(); sym_out_clear(); p->showUsage(); vector<string> w = words();
  for (auto& f : F) {
    int n = 0; for (size_t i = 0; i < w.size(); i++) if (w[i] == f[0]) { n++; sym_check(i + 1 < w.size() && w[i + 1] == f[1], "short form"); }
    sym_check(n == 1, "listed once");
  }
  sym_obs_int("n", (int)w.size()); sym_reach("program");
}
