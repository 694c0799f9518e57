// C25: from the calc_J command line to the run parameters
#include "cli.h"
#include <climits>
#include "io/io.hpp"
#include "parameters.hpp"
typedef unique_ptr<ArgumentParser> AP;
static const char* L[] = {"--log_1", "--log_2", "--log_P", "--pun_1", "--pun_2", "--pun_P"};
static const char* S[] = {"-l_1", "-l_2", "-l_P", "-p_1", "-p_2", "-p_P"};
static const char* F[] = {"a.log", "d/b.log", "e.log", "m.pun", "d/n.7", "o.orb"};
static string file(const Parameters& p, int k) { return k == 0 ? p.getLog1() : k == 1 ? p.getLog2() : k == 2 ? p.getLogP() : k == 3 ? p.getPun1() : k == 4 ? p.getPun2() : p.getPunP(); }
static string spin(const Parameters& p, int k) { return k == 0 ? p.getSpin1() : k == 1 ? p.getSpin2() : p.getSpinP(); }
static string type(const Parameters& p, int k) { return k == 0 ? p.getOrbType1() : p.getOrbType2(); }
static int num(const Parameters& p, int k) { return k == 0 ? p.getOrbNum1() : p.getOrbNum2(); }
static AP* parser;
static void begin() { parser = new AP(prepareParser()); }
static void files() { begin(); for (int i = 0; i < 6; i++) sym_file(F[i], "x", 1); }
static void six(Cmd& c, int except = -1) { for (int i = 0; i < 6; i++) if (i != except) c(i % 2 ? L[i] : S[i])(F[i]); }
// 0 settings made, 1 refused, 2 the program ends
static int settings(Cmd& c, unique_ptr<Parameters>& out) {
  int r = c.run(**parser);
  if (r == 0) r = outcome([&] { out = prepareParameters(*parser); });
  sym_obs_int("settings", r);
  return r;
}
struct Want { string spin[3], type[2]; int num[2], cp, cite; string file[6];
  Want() { for (auto& s : spin) s = "Alpha"; for (auto& s : type) s = "HOMO"; num[0] = num[1] = cp = cite = 0; for (int i = 0; i < 6; i++) file[i] = F[i]; } };
static void all(const Parameters& p, const Want& w) {
  for (int i = 0; i < 6; i++) sym_check(file(p, i) == w.file[i], i < 3 ? "log file" : "pun file");
  for (int i = 0; i < 3; i++) sym_check(same(spin(p, i), w.spin[i]), i < 2 ? "spin of a monomer" : "spin of the dimer");
  for (int i = 0; i < 2; i++) { sym_check(same(type(p, i), w.type[i]), "orbital type"); sym_check(num(p, i) == w.num[i], "orbital number"); }
  sym_check(p.getCounterPoise() == (w.cp != 0), "counterpoise"); if (!w.cite) sym_check(!p.getCitation(), "citation");
}
static int which(const string& w, const char* a, const char* b) { return sym_or(same(w, a), same(w, b)); }
// spins, in any combination
extern "C" void t_spin() {
  static const char* SL[] = {"--spin_1", "--spin_2", "--spin_P"}; static const char* SS[] = {"-s_1", "-s_2", "-s_P"};
  files(); Cmd c; Want w; int form = sym_choose("form", 2), first = sym_choose("first", 2); if (!first) six(c);
  for (int i = 0; i < 3; i++) { int g = sym_choose(nm("spin", i).c_str(), 3); if (g) { w.spin[i] = g == 1 ? "Alpha" : "Beta"; c(form ? SL[i] : SS[i])(w.spin[i]); } }
  int cp = sym_choose("cp", 2); if (cp) { c("-cp"); w.cp = 1; }
  if (first) six(c);
  unique_ptr<Parameters> p; sym_check(settings(c, p) == 0, "understood"); if (p) all(*p, w); sym_reach("spins");
}
// every word as a spin or orbital type
extern "C" void t_word() {
  static const char* O[] = {"--spin_1", "--spin_2", "--spin_P", "--orbital_type_1", "--orbital_type_2", "-s_1", "-s_2", "-s_P", "-orb_ty_1", "-orb_ty_2"};
  files(); int o = sym_choose("option", 10), k = o % 5; string x = text("w", 4, 5, 'A', 'u'); Cmd c; six(c); c(O[o])(x);
  int good = k < 3 ? which(x, "Alpha", "Beta") : which(x, "HOMO", "LUMO"); Want w;
  unique_ptr<Parameters> p; int r = settings(c, p);
  sym_check(r == 0 ? good : sym_ite(good, 0, 1), "exactly the documented words");
  if (r == 0) { if (k < 3) w.spin[k] = x; else w.type[k - 3] = x; all(*p, w); sym_reach("word"); } else sym_reach("no word");
}
// orbital types and every number
extern "C" void t_orb() {
  static const char* TL[] = {"--orbital_type_1", "--orbital_type_2"}; static const char* TS[] = {"-orb_ty_1", "-orb_ty_2"};
  static const char* NL[] = {"--orbital_num_1", "--orbital_num_2"}; static const char* NS[] = {"-orb_num_1", "-orb_num_2"};
  files(); Cmd c; Want w; int m = sym_choose("monomer", 2), form = sym_choose("form", 2), t = sym_choose("type", 3), o = sym_choose("other", 3), n = sym_choose("number", 4), late = sym_choose("late", 2); six(c);
  if (t) w.type[m] = t == 1 ? "HOMO" : "LUMO";
  if (o) { w.type[!m] = o == 1 ? "HOMO" : "LUMO"; w.num[!m] = o == 1 ? -3 : 4; c(form ? TS[!m] : TL[!m])(w.type[!m])(NL[!m])(o == 1 ? "-3" : "4"); }
  if (t && !late) c(form ? TL[m] : TS[m])(w.type[m]);
  if (n) {
    string d; d += sym_char("d0", '0', '9'); if (n > 1) d += sym_char("d1", '0', '9'); bool neg = n == 3 || (n == 1 && sym_choose("minus", 2));
    int v = 0; for (char ch : d) v = v * 10 + (ch - '0'); w.num[m] = neg ? -v : v; c(form ? NL[m] : NS[m])((neg ? "-" : "") + d);
  }
  if (t && late) c(form ? TL[m] : TS[m])(w.type[m]);
  int good = t == 2 ? w.num[m] >= 0 : w.num[m] <= 0;
  unique_ptr<Parameters> p; int r = settings(c, p);
  sym_check(r == 0 ? good : sym_ite(good, 0, 1), "HOMO downwards, LUMO upwards");
  if (r == 0) { all(*p, w); sym_reach("orbital"); } else sym_reach("wrong direction");
}
// orbital numbers of many digits
extern "C" void t_num() {
  static const char* N[] = {"--orbital_num_1", "--orbital_num_2", "-orb_num_1", "-orb_num_2"}; static const char* T[] = {"-orb_ty_1", "-orb_ty_2"};
  files(); Cmd c; Want w; int f = sym_choose("flag", 4), m = f % 2, lumo = sym_choose("lumo", 2), l = 3 + sym_choose("len", 9), both = sym_choose("both", 2); string d; six(c);
  if (l == 11) { d = lumo ? "2147483647" : "2147483648"; w.num[m] = lumo ? INT_MAX : INT_MIN; }
  else { int k = 0; for (int i = 0; i < l; i++) d += i == 0 ? '1' : i == l / 2 || i == l - 1 ? sym_char(nm("d", i).c_str(), '0', '9') : '0' + (i * 7 + 3) % 10; for (char ch : d) k = k * 10 + (ch - '0'); w.num[m] = lumo ? k : -k; }
  if (lumo) { w.type[m] = "LUMO"; c(T[m])("LUMO"); }
  if (both) { w.type[1 - m] = lumo ? "HOMO" : "LUMO"; w.num[1 - m] = lumo ? -1234567 : 765432; c(T[1 - m])(w.type[1 - m])(N[1 - m])(lumo ? "-1234567" : "765432"); }
  c(N[f])((lumo ? "" : "-") + d);
  unique_ptr<Parameters> p; sym_check(settings(c, p) == 0, "understood"); if (p) all(*p, w); sym_reach("many digits");
}
// names and folders with blanks
extern "C" void t_blank() {
  static const char* B[] = {"a b", " a", "a  b c", "d e/f", "d e/f g", "d.e f/g", "./a b", "a b/c.d e", "a\tb"}; static const char* PE[] = {".orb", ".7", ".pun"};
  begin(); int m = sym_choose("role", 3), how = sym_choose("how", 3), k = sym_choose("kind", 3), there = sym_choose("there", 2); string b = B[sym_choose("name", 9)], lf = b + ".log", pf = b + PE[k];
  for (int i = 0; i < 6; i++) if (i % 3 != m) sym_file(F[i], "x", 1);
  if (how != 2 || there) sym_file(lf.c_str() + (b[0] == '.' ? 2 : 0), "x", 1); if (how != 1 || there) sym_file(pf.c_str() + (b[0] == '.' ? 2 : 0), "x", 1);
  Cmd c; for (int i = 0; i < 6; i++) if (i % 3 != m) c(S[i])(F[i]); if (how != 2) c(S[m])(lf); if (how != 1) c(L[m + 3])(pf);   // both given, log only, pun only
  Want w; w.file[m] = lf; w.file[m + 3] = pf; unique_ptr<Parameters> p; int r = settings(c, p);
  if (how && !there) sym_check(r == 1, "a file that cannot be found is refused"); else { sym_check(r == 0, "understood"); if (p) all(*p, w); }
  sym_reach("blanks");
}
// one file given in two roles
extern "C" void t_shared() {
  files(); int kind = sym_choose("kind", 2), a = sym_choose("a", 3), b = sym_choose("b", 3), form = sym_choose("form", 2), rest = sym_choose("rest", 2), cp = sym_choose("cp", 2); if (a == b) return;
  Cmd c; Want w; if (cp) { c("-cp")("ON"); w.cp = 1; } w.file[kind * 3 + b] = F[kind * 3 + a];
  for (int i = 0; i < 6; i++) { int k = rest ? 5 - i : i; c((k + form) % 2 ? L[k] : S[k])(w.file[k]); }
  unique_ptr<Parameters> p; sym_check(settings(c, p) == 0, "understood"); if (p) all(*p, w); sym_reach("one file twice");
}
// counterpoise; asking for the citation does not disturb it
extern "C" void t_cp() {
  static const char* W[] = {"", "ON", "TRUE", "1", "OFF", "FALSE", "0"};
  files(); Cmd c; Want w; int g = sym_choose("cp", 3), v = g ? sym_choose("word", 7) : 0, at = sym_choose("at", 3), e = sym_choose("cite", 3);
  auto put = [&] { if (g) { c(g == 1 ? "-cp" : "--counter_poise"); if (v) c(W[v]); w.cp = v < 4; } };
  if (at == 0) put();
  if (e) { c(e == 1 ? "-cite" : "--citation"); w.cite = 1; }
  if (at == 1) put(); six(c); if (at == 2) put();
  unique_ptr<Parameters> p; sym_check(settings(c, p) == 0, "understood"); if (p) all(*p, w); sym_reach("counterpoise");
}
// where each of the six files comes from
extern "C" void t_files() {
  // role: monomer 1, monomer 2 or dimer; the others are given in full
  begin(); int m = sym_param("role", 0), gl = sym_choose("log", 3), gp = sym_choose("pun", 4), hl = sym_choose("log exists", 2), form = sym_choose("form", 2);
  static const char* PE[] = {".pun", ".7", ".orb"}; int hp[3];
  for (int i = 0; i < 3; i++) { hp[i] = sym_choose(nm("exists", i).c_str(), 2); if (hp[i]) sym_file((string("x/q") + PE[i]).c_str(), "x", 1); }
  if (hl) sym_file("x/q.log", "x", 1);
  for (int i = 0; i < 6; i++) if (i % 3 != m) sym_file(F[i], "x", 1);
  if (gl == 2) sym_file("z.log", "x", 1);
  Cmd c; Want w; for (int i = 0; i < 6; i++) if (i % 3 != m) c(form ? L[i] : S[i])(F[i]);
  string ln = gl == 2 ? "z.log" : "x/q.log"; if (gl) c(form ? S[m] : L[m])(ln);
  string pn = gp ? string("x/q") + PE[gp - 1] : ""; if (gp) c(form ? S[m + 3] : L[m + 3])(pn);
  bool lg = gl == 2 || (gl == 1 && hl), pg = gp && hp[gp - 1];  // given and there
  bool lc = !lg && gp && hl;                                     // log file next to the pun file
  bool pc = !pg && gl == 1 && (hp[0] || hp[1] || hp[2]);         // pun file next to the log file
  bool wrong = (gl && !lg) || (gp && !pg);                       // a name that leads nowhere was given
  unique_ptr<Parameters> p; int r = settings(c, p);
  if (!((lg || lc) && (pg || pc))) { sym_check(r == 1, "a file that cannot be found is refused"); sym_reach("not found"); return; }
  if (!wrong) sym_check(r == 0, "understood");
  if (r == 0) {
    string lf = file(*p, m), pf = file(*p, m + 3);
    if (lg) sym_check(lf == ln, "the log file given"); else sym_check(lf == "x/q.log", "the log file next to the pun file");
    if (pg) sym_check(pf == pn, "the pun file given");
    else { int k = 0; for (int i = 0; i < 3; i++) if (hp[i] && pf == string("x/q") + PE[i]) k = 1; sym_check(k, "an existing pun file next to the log file"); }
    w.file[m] = lf; w.file[m + 3] = pf; all(*p, w); sym_reach("found");
  }
}
// files of the wrong kind
extern "C" void t_kind() {
  static const char* N[] = {"k.log", "k.pun", "k.7", "k.orb", "k", "k.log.pun", "k.pun.log"};
  files(); for (auto n : N) sym_file(n, "x", 1);
  int i = sym_choose("option", 6), k = sym_choose("name", 7), form = sym_choose("form", 2); Cmd c; six(c, i); c(form ? L[i] : S[i])(N[k]); Want w; w.file[i] = N[k];
  bool log = k == 0 || k == 6, pun = k == 1 || k == 2 || k == 3 || k == 5;
  unique_ptr<Parameters> p; int r = settings(c, p);
  sym_check((r == 0) == (i < 3 ? log : pun), "exactly the right kind of file");
  if (r == 0) all(*p, w); sym_reach("kinds");
}
// the last one given counts; without files nothing is run
extern "C" void t_twice() {
  files(); Cmd c; Want w; int k = sym_choose("what", 5);
  if (k == 4) { c(sym_choose("form", 2) ? "--spin_P" : "-s_P")("Beta"); unique_ptr<Parameters> p; sym_check(settings(c, p) == 1, "files are needed"); sym_reach("no files"); return; }
  if (k == 0) { c("-s_1")("Beta")("--spin_1")("Alpha"); } if (k == 1) { c("-orb_num_2")("-7")("--orbital_num_2")("-2"); w.num[1] = -2; }
  if (k == 2) { c("-cp")("ON")("--counter_poise")("OFF"); } if (k == 3) { c("--log_1")(F[1]); }
  six(c); unique_ptr<Parameters> p; sym_check(settings(c, p) == 0, "understood"); if (p) all(*p, w); sym_reach("twice");
}
// long names in deep folders, the pun file found next to the log file or the other way round
extern "C" void t_long() {
  static const int LEN[] = {20, 70, 200}; int m = sym_choose("role", 3), how = sym_choose("how", 4), l = LEN[sym_choose("len", 3)]; string b = "x.y/"; for (int i = 0; (int)b.size() < l; i++) b += "name.of-part7"[i % 13]; b += "z";
  string lf = b + ".log", pf = b + (how == 1 ? ".7" : how == 2 ? ".orb" : ".pun"); begin(); for (int i = 0; i < 6; i++) if (i % 3 != m) sym_file(F[i], "x", 1);
  sym_file(lf.c_str(), "x", 1); sym_file(pf.c_str(), "x", 1); sym_file((b + "z.pun").c_str(), "x", 1); sym_file((b.substr(0, b.size() - 1) + ".pun").c_str(), "x", 1);
  Cmd c; six(c, -1); Cmd d; for (int i = 0; i < 6; i++) if (i % 3 != m) d(L[i])(F[i]); if (how != 3) d(S[m])(lf); if (how == 3 || how == 0) d(L[m + 3])(pf);
  Want w; w.file[m] = lf; w.file[m + 3] = pf; unique_ptr<Parameters> p; sym_check(settings(d, p) == 0, "understood"); if (p) all(*p, w); sym_reach("long names");
}
