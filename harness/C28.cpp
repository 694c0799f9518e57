// C28: the program from its files to the printed transfer integral
#include "qc.h"
#include "text.h"
#include <algorithm>
int calcJ_main(int argc, const char* argv[]);
static const char* EL[] = {"C", "H", "Cl"};
// before, symbolic digits, after; the value the text denotes
static Num digit(const string& name, const string& before, const string& after, int w) {
  Num n; string t = before; double m = 0; int frac = -1, e = 0, k = sym_param("digits", 5); bool neg = false;
  auto put = [&](char c) { m = m * 10 + (c - '0'); if (frac >= 0) frac++; };
  for (char c : before) if (c == '-') neg = true; else if (c == '.') frac = 0; else put(c);
  for (int i = 0; i < k; i++) { char c = plainDigits ? '3' : sym_char(nm(name.c_str(), i).c_str(), '0', '9'); put(c); t += c; }
  for (size_t i = k - 1; i < after.size(); i++) { t += after[i]; if (after[i] == 'D') { e = atoi(after.c_str() + i + 1); t += after.substr(i + 1); break; } put(after[i]); }
  n.s = padl(t, w); n.v = (neg ? -m : m) / p10(frac - e); return n;
}
static Num coef(const string& n, int i) { return i % 3 == 2 ? digit(n, "-0.1", "000000D+00", 15) : i % 3 ? digit(n, "1.", "0000000D-01", 15) : digit(n, "0.0", "0500000D+00", 15); }
static Num ener(const string& n, int i, bool neg) { return digit(n, (neg ? "-" : "") + std::to_string(1 + i) + ".", "0025", 10); }
struct Spin { NTab c; vector<Num> o, v; };
struct Calc {
  Spin s[2]; NTab xyz, S; vector<int> n; bool beta;
  string pun() const { string t = punSpin("Alpha", s[0].c); if (beta) t += punSpin("Beta", s[1].c); return t; }
  string log(bool pop, bool ov) const {
    string t = coordText(xyz); if (ov) t += overlapText(S); t += energyLines("Alpha", s[0].o, s[0].v); if (beta) t += energyLines("Beta", s[1].o, s[1].v);
    return t + (pop ? popText(n, EL, "q", false) : "") + " end\n";
  }
};
static Spin spin(const string& p, int nb, int occ, int virt) {
  Spin s; s.c.resize(occ + virt);
  for (int i = 0; i < occ + virt; i++) for (int j = 0; j < nb; j++) s.c[i].push_back(coef(nm((p + "c").c_str(), i, j), i + 2 * j));
  for (int i = 0; i < occ; i++) s.o.push_back(ener(nm((p + "o").c_str(), i), occ - i, true)); for (int i = 0; i < virt; i++) s.v.push_back(ener(nm((p + "v").c_str(), i), i, false));
  return s;
}
// positions of three atoms; the first two belong to monomer 1 and the last to monomer 2
static const double X[3][3] = {{0.5, -1.25, 10.75}, {0.5, -1.25, -10.75}, {3.000125, 1.5, 0}};
static const int NB[3] = {1, 2, 1};
static Num place(double v) { char b[32]; snprintf(b, sizeof b, "%.6f", v); Num n; n.s = padl(b, 12); n.v = v; return n; }
static void atoms(Calc& c, const vector<int>& a) { for (int i : a) { vector<Num> r; for (int k = 0; k < 3; k++) r.push_back(place(X[i][k])); c.xyz.push_back(r); c.n.push_back(NB[i]); } }
static vector<double> row(const vector<Num>& v) { vector<double> r; for (auto& n : v) r.push_back(n.v); return r; }
static const int CP = 1;
struct World {
  Calc m1, m2, d; int cp, N; vector<int> order;  // order: dimer's listing of the atoms
  vector<int> cols;                              // canonical number of every basis function of the dimer's listing
  World(int cp_, const vector<int>& ord, bool beta) : cp(cp_), N(4), order(ord) {
    m1.beta = m2.beta = d.beta = beta;
    int n1 = cp ? N : 3, n2 = cp ? N : 1;
    m1.s[0] = spin("1a", n1, 2, 1); m2.s[0] = spin("2a", n2, 1, 1); d.s[0] = spin("Pa", N, 1, 1);
    if (beta) { m1.s[1] = spin("1b", n1, 1, 2); m2.s[1] = spin("2b", n2, 2, 1); d.s[1] = spin("Pb", N, 1, 1); }
    vector<int> a1 = {0, 1}, a2 = {2}, all = {0, 1, 2}; atoms(m1, cp ? all : a1); atoms(m2, cp ? all : a2); atoms(d, order);
    d.S.resize(N); for (int i = 0; i < N; i++) for (int j = 0; j <= i; j++) d.S[i].push_back(i == j ? digit(nm("s", i, j), "0.9", "0000D+00", 14) : digit(nm("s", i, j), "0.2", "0000D-01", 14));
    static const int st[3] = {0, 1, 3}; for (int a : order) for (int k = 0; k < NB[a]; k++) cols.push_back(st[a] + k);
  }
};
static int go(const vector<string>& a) {
  static vector<string> keep; keep = a; vector<const char*> v; v.push_back("calc_J"); for (auto& s : keep) v.push_back(s.c_str());
  sym_out_clear(); int rc = 0, o = outcome([&] { rc = calcJ_main((int)v.size(), v.data()); }); return o ? o : rc ? 3 : 0;
}
static void files(const World& w, const char* p1 = ".pun", const char* p2 = ".pun", const char* pp = ".pun", bool pop1 = true, bool pop2 = true, bool popP = true) {
  file_("a.log", w.m1.log(pop1, false)); file_(("a" + string(p1)).c_str(), w.m1.pun()); file_("b.log", w.m2.log(pop2, false)); file_(("b" + string(p2)).c_str(), w.m2.pun());
  file_("p.log", w.d.log(popP, true)); file_(("p" + string(pp)).c_str(), w.d.pun());
}
// form 0: everything named, 1: log files only, 2: pun files only
static vector<string> args(int form, const char* p1 = ".pun", const char* p2 = ".pun", const char* pp = ".pun") {
  vector<string> v;
  if (form != 2) { v.push_back("-l_1"); v.push_back("a.log"); v.push_back("--log_2"); v.push_back("b.log"); v.push_back("-l_P"); v.push_back("p.log"); }
  if (form != 1) { v.push_back("--pun_P"); v.push_back("p" + string(pp)); v.push_back("-p_1"); v.push_back("a" + string(p1)); v.push_back("-p_2"); v.push_back("b" + string(p2)); }
  return v;
}
static void add(vector<string>& v, const char* a, const string& b) { v.push_back(a); v.push_back(b); }
static void echo(const string& s, const char* what) { sym_check(sym_out_contains((s + "\n").c_str()), what); }
static string orbital(const char* t, int k) { return string(t) + (k > 0 ? "+" : "") + (k ? std::to_string(k) : ""); }
// the printed numbers against the projection of the orbitals in the files
static void result(const World& w, int s1, int s2, int sp, const char* t1, int k1, const char* t2, int k2, bool reorder) {
  const double h = 27.2114; const Spin &a = w.m1.s[s1], &b = w.m2.s[s2], &d = w.d.s[sp]; int N = w.N, no = d.c.size();
  int r1 = (int)a.o.size() - (t1[0] == 'H') + k1, r2 = (int)b.o.size() - (t2[0] == 'H') + k2;
  Tab P(no, vector<double>(N)), S(N, vector<double>(N)); vector<double> E = row(d.o); for (auto& e : d.v) E.push_back(e.v);
  for (int i = 0; i < N; i++) { int ci = reorder ? w.cols[i] : i; for (int k = 0; k < no; k++) P[k][ci] = d.c[k][i].v; for (int j = 0; j < N; j++) S[ci][reorder ? w.cols[j] : j] = w.d.S[i < j ? j : i][i < j ? i : j].v; }
  vector<double> va = row(a.c[r1]), vb = row(b.c[r2]);
  Ref r = reference(w.cp ? va : pad(va, 0, N), w.cp ? vb : pad(vb, 3, N), P, S, E);
  double j = shown("J_ab", "J_ab printed"), ea = shown("e_a", "e_a printed"), eb = shown("e_b", "e_b printed"), s = shown("S_ab", "S_ab printed"), je = shown("J_eff", "J_eff printed");
  if (sym_symbolic()) sym_check_eqd(je, (j - 0.5 * (ea + eb) * s) / (1 - s * s), "J_eff is the projected transfer integral");
  else sym_check_near(je, r.num / r.den * h, 1e-5, "J_eff is the projected transfer integral");
  sym_check_near(j, r.J * h, 1e-5, "J_ab"); sym_check_near(ea, r.ea * h, 1e-5, "e_a"); sym_check_near(eb, r.eb * h, 1e-5, "e_b"); sym_check_near(s, r.S, 1e-5, "S_ab");
  static const char* SP[] = {"Alpha", "Beta"};
  echo(string("Dimer     Spin ") + SP[sp], "spin of the dimer"); echo(string("Monomer 1 Spin ") + SP[s1] + " Orbital " + orbital(t1, k1), "orbital of monomer 1"); echo(string("Monomer 2 Spin ") + SP[s2] + " Orbital " + orbital(t2, k2), "orbital of monomer 2");
}
static void named(const char* p1, const char* p2, const char* pp) {
  echo("log file for first monomer is:      a.log", "log file of monomer 1"); echo("log file for second monomer is:     b.log", "log file of monomer 2"); echo("log file for dimer is:              p.log", "log file of the dimer");
  echo(string("pun file for the first monomer is:  a") + p1, "pun file of monomer 1"); echo(string("pun file for the second monomer is: b") + p2, "pun file of monomer 2"); echo(string("pun file for the dimer is:          p") + pp, "pun file of the dimer");
}
static const vector<int> ORD[6] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
static void silent(int o) { sym_check(o != 0, "an error is reported"); sym_check(!sym_out_contains("J_eff"), "no result is printed"); }
static int check0(int o) { sym_check(o == 0, "the program succeeds"); sym_obs_int("outcome", o); return o == 0; }
// atom orders
extern "C" void t_order() {
  int cp = sym_param("cp", 0); World w(cp, ORD[sym_param("order", 0)], false); files(w); vector<string> v = args(sym_choose("form", 3)); if (cp) v.push_back("-cp");
  if (check0(go(v))) { result(w, 0, 0, 0, "HOMO", 0, "HOMO", 0, true); named(".pun", ".pun", ".pun"); sym_reach("orders"); }
}
// spins of the monomers and the dimer
extern "C" void t_spin() {
  static const char* SP[] = {"Alpha", "Beta"}; int cp = sym_param("cp", 0); World w(cp, ORD[sym_param("order", 4)], true); files(w);
  int s1 = sym_choose("s1", 2), s2 = sym_choose("s2", 2), sp = sym_choose("sp", 2); vector<string> v = args(0);
  add(v, "--spin_1", SP[s1]); add(v, "-s_2", SP[s2]); add(v, "--spin_P", SP[sp]); if (cp) add(v, "--counter_poise", "ON");
  if (check0(go(v))) { result(w, s1, s2, sp, "HOMO", 0, "HOMO", 0, true); sym_reach("spins"); }
}
// orbitals of the monomers
extern "C" void t_orbital() {
  static const struct { const char* t; int k; } O1[] = {{"HOMO", 0}, {"HOMO", -1}, {"LUMO", 0}, {"LUMO", 1}}, O2[] = {{"HOMO", 0}, {"LUMO", 0}, {"HOMO", -1}, {"LUMO", 1}};
  int beta = sym_param("beta", 0); World w(0, ORD[3], beta); if (!beta) w.m2.s[0] = spin("2x", 1, 2, 2); files(w); int i = sym_choose("o1", 3), j = sym_choose("o2", beta ? 2 : 4); if (beta && i) i++;  // beta of monomer 1: one occupied, two not
  vector<string> v = args(0); add(v, "-orb_num_1", std::to_string(O1[i == 2 && beta ? 2 : i].k)); add(v, "--orbital_type_1", O1[i].t); add(v, "-orb_ty_2", O2[j].t); if (j > 1) add(v, "--orbital_num_2", std::to_string(O2[j].k)); if (beta) { add(v, "-s_1", "Beta"); add(v, "-s_2", "Beta"); add(v, "-s_P", "Beta"); }
  if (check0(go(v))) { result(w, beta, beta, beta, O1[i].t, O1[i].k, O2[j].t, O2[j].k, true); sym_reach("orbitals"); }
}
// without populations the basis functions are taken as listed
extern "C" void t_listed() {
  World w(0, ORD[5], false); int which = sym_choose("without", 4); files(w, ".7", ".orb", ".pun", which != 0 && which != 3, which != 1 && which != 3, which != 2 && which != 3);
  if (check0(go(args(0, ".7", ".orb", ".pun")))) { result(w, 0, 0, 0, "HOMO", 0, "HOMO", 0, false); named(".7", ".orb", ".pun"); sym_reach("as listed"); }
}
// one calculation for both monomers, orbitals and spins chosen apart; files in other folders
extern "C" void t_same() {
  int beta = sym_choose("beta", 2), k = sym_choose("k", 2); World w(0, ORD[0], true); Calc m; m.beta = true; vector<int> a1 = {1, 2}; atoms(m, a1); m.n = {1, 1}; m.s[0] = spin("a", 2, 2, 1); m.s[1] = spin("b", 2, 1, 2);
  w.m1 = w.m2 = m; file_("one/a.log", m.log(false, false)); file_("one/a.7", m.pun()); file_("dimer.d/p.log", w.d.log(false, true)); file_("dimer.d/p.pun", w.d.pun());
  vector<string> v; add(v, "-l_P", "dimer.d/p.log"); if (k) { add(v, "-p_1", "one/a.7"); add(v, "-p_2", "one/a.7"); add(v, "-l_1", "one/a.log"); add(v, "-l_2", "one/a.log"); } else { add(v, "-l_2", "one/a.log"); add(v, "-l_1", "./one/a.log"); }
  add(v, "-orb_ty_2", "LUMO"); if (beta) add(v, "-s_2", "Beta");
  if (!check0(go(v))) return;
  const double h = 27.2114; int N = 4; Tab P(2), S(N, vector<double>(N)); for (int i = 0; i < 2; i++) P[i] = row(w.d.s[0].c[i]); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) S[i][j] = w.d.S[i < j ? j : i][i < j ? i : j].v;
  vector<double> E = row(w.d.s[0].o); for (auto& e : w.d.s[0].v) E.push_back(e.v);
  Ref r = reference(pad(row(m.s[0].c[1]), 0, N), pad(row(m.s[beta].c[beta ? 1 : 2]), 2, N), P, S, E);
  double j = shown("J_ab", "J_ab printed"), ea = shown("e_a", "e_a printed"), eb = shown("e_b", "e_b printed"), s = shown("S_ab", "S_ab printed");
  sym_check_near(j, r.J * h, 1e-5, "J_ab"); sym_check_near(ea, r.ea * h, 1e-5, "e_a"); sym_check_near(eb, r.eb * h, 1e-5, "e_b"); sym_check_near(s, r.S, 1e-5, "S_ab");
  sym_reach("one calculation twice");
}
// files that are missing, swapped or damaged, and requests that cannot be met
extern "C" void t_wrong() {
  int what = sym_choose("what", 16); World w(0, ORD[0], false); vector<string> v = args(0);
  string t[6] = {w.m1.log(true, false), w.m1.pun(), w.m2.log(true, false), w.m2.pun(), w.d.log(true, true), w.d.pun()}; static const char* N[6] = {"a.log", "a.pun", "b.log", "b.pun", "p.log", "p.pun"};
  int drop = what < 6 ? what : -1;
  if (what == 6) std::swap(t[0], t[2]); if (what == 7) std::swap(t[1], t[3]); if (what == 8) { std::swap(t[1], t[5]); } if (what == 9) { std::swap(t[0], t[4]); }
  if (what == 10) t[4] = w.d.log(true, false);            // no overlap matrix
  if (what == 11) add(v, "-s_P", "Beta"); if (what == 12) add(v, "-s_1", "Beta"); if (what == 13) add(v, "-orb_num_1", "-2");
  if (what == 14) { add(v, "-orb_ty_2", "LUMO"); add(v, "-orb_num_2", "1"); }
  if (what == 15) v.push_back("-cp");                      // not a counterpoise calculation
  for (int i = 0; i < 6; i++) if (i != drop) file_(N[i], t[i]);
  int o = go(v); silent(o); sym_obs_int("outcome", o); sym_reach("wrong");
}
// every file cut off anywhere
extern "C" void t_cut() {
  plainDigits = sym_param("plain", 1); World w(0, ORD[0], false); int k = sym_param("file", 4); string t[6] = {w.m1.log(true, false), w.m1.pun(), w.m2.log(true, false), w.m2.pun(), w.d.log(true, true), w.d.pun()}; static const char* N[6] = {"a.log", "a.pun", "b.log", "b.pun", "p.log", "p.pun"};
  // cut off before the last section the calculation needs is complete
  size_t need = k % 2 ? t[k].size() - 1 : k == 4 ? t[k].find(" Alpha virt.") : t[k].find(" Alpha virt.");
  int m = sym_param("mod", 1), r = sym_param("res", 0), c = r + m * sym_choose("cut", ((int)need - 1 - r) / m + 1); t[k] = t[k].substr(0, c);
  for (int i = 0; i < 6; i++) file_(N[i], t[i]);
  int o = go(args(0)); silent(o); sym_obs_int("outcome", o); sym_reach("cut");
}

// larger systems: given numbers, of which a coefficient of each calculation, an overlap and an energy have symbolic digits
static Num dnum(double v, int w) { char b[32]; snprintf(b, sizeof b, "%.6f", v); Num n; n.v = atof(b); n.s = padl(string(b) + "D+00", w); return n; }
static Spin given(int nb, int occ, int virt, int seed) {
  Spin s; s.c.resize(occ + virt);
  for (int i = 0; i < occ + virt; i++) for (int j = 0; j < nb; j++) s.c[i].push_back(dnum(((i * 7 + j * 5 + seed * 3) % 7 - 3) / 64.0, 15));
  for (int i = 0; i < occ; i++) { char b[32]; snprintf(b, sizeof b, "%.5f", (i - occ) * 0.25 - seed); Num n; n.v = (i - occ) * 0.25 - seed; n.s = padl(b, 10); s.o.push_back(n); }
  for (int i = 0; i < virt; i++) { char b[32]; snprintf(b, sizeof b, "%.5f", i * 0.5 + 0.25); Num n; n.v = i * 0.5 + 0.25; n.s = padl(b, 10); s.v.push_back(n); }
  return s;
}
extern "C" void t_large() {
  int n1 = sym_param("n1", 6), n2 = sym_param("n2", 5), n = n1 + n2, mx = sym_param("mx", 3), cp = sym_param("cp", 0), beta = sym_param("beta", 0), how = sym_param("order", 0), o1 = sym_choose("o1", 2) + beta, occ = sym_param("occ", 9), virt = sym_param("virt", 4), no = sym_param("no", 15);
  vector<int> order, nb, first, all, A, B; vector<const char*> e; static const char* EE[] = {"C", "H", "Cl", "N", "S", "O"}; int N = 0, N1 = 0;
  for (int i = 0; i < n; i++) { nb.push_back(1 + (i * 5) % mx); first.push_back(N); N += nb[i]; all.push_back(i); (i < n1 ? A : B).push_back(i); if (i == n1 - 1) N1 = N; order.push_back(how == 0 ? i : how == 1 ? n - 1 - i : how == 2 ? (i + n1) % n : how == 3 ? (i * 5) % n : (i % 2 ? n - 1 - i / 2 : i / 2)); }
  { vector<int> t = order; std::sort(t.begin(), t.end()); if (t != all) return; }
  auto put = [&](Calc& c, const vector<int>& a, vector<const char*>& el) { for (int i : a) { vector<Num> r; r.push_back(place((i % 5) * 1.5 - 3.25)); r.push_back(place(-(i / 5) * 1.25 + 0.000125)); r.push_back(place(i * 0.0003 - 0.0011)); c.xyz.push_back(r); c.n.push_back(nb[i]); el.push_back(EE[i % 6]); } };
  Calc m1, m2, d; m1.beta = m2.beta = d.beta = beta; vector<const char*> e1, e2, ep; put(m1, cp ? all : A, e1); vector<int> all2; for (int i = 0; i < n; i++) all2.push_back((i + 3 + how) % n);
  put(m2, cp ? all2 : B, e2); put(d, order, ep);
  int w1 = cp ? N : N1, w2 = cp ? N : N - N1;
  for (int s = 0; s <= beta; s++) { m1.s[s] = given(w1, occ - s, virt + s, 1 + s); m2.s[s] = given(w2, occ - 2, virt, 3 + s); d.s[s] = given(N, no - 7 - s, 7 + s, 2 + s); }
  d.S.resize(N); for (int i = 0; i < N; i++) for (int j = 0; j <= i; j++) d.S[i].push_back(dnum(i == j ? 1 : (i * 3 + j * 7) % 5 - 2 == 1 ? 0.015625 : (i + j) % 7 ? 0 : -0.03125, 14));
  // symbolic digits
  int h1 = occ - beta - 1 + (o1 == 1 ? 1 : o1 == 2 ? -2 : 0), h2 = occ - 3; Spin &a = m1.s[beta], &b = m2.s[beta], &p = d.s[beta];
  int sy = sym_choose("sy", 5);
  if (sy == 0) a.c[h1][w1 - 1] = digit("x", "0.0", "0000D+00", 15);
  if (sy == 1) b.c[h2][w2 / 2] = digit("y", "-0.0", "0000D+00", 15);
  if (sy == 2) p.c[no - 1][N / 2] = digit("z", "0.0", "0000D+00", 15);
  if (sy == 3) d.S[N - 1][N / 3] = digit("s", "0.01", "0000D+00", 14);
  if (sy == 4) p.o[2] = digit("o", "-0.", "0000", 10);
  auto log = [&](const Calc& c, const vector<const char*>& el, bool ov) { string t = coordText(c.xyz); if (ov) t += overlapText(c.S); t += energyLines("Alpha", c.s[0].o, c.s[0].v); if (beta) t += energyLines("Beta", c.s[1].o, c.s[1].v); return t + popText(c.n, el.data(), "q", false) + " end\n"; };
  file_("a.log", log(m1, e1, false)); file_("b.log", log(m2, e2, false)); file_("p.log", log(d, ep, true)); file_("a.pun", m1.pun()); file_("b.pun", m2.pun()); file_("p.pun", d.pun());
  vector<string> v = args(0); if (cp) v.push_back("-cp"); if (beta) { add(v, "-s_1", "Beta"); add(v, "-s_2", "Beta"); add(v, "-s_P", "Beta"); } if (o1 == 1) add(v, "-orb_ty_1", "LUMO"); if (o1 == 2) add(v, "-orb_num_1", "-2");
  if (!check0(go(v))) return;
  vector<int> cols; for (int i : order) for (int k = 0; k < nb[i]; k++) cols.push_back(first[i] + k);
  Tab P(no, vector<double>(N)), S(N, vector<double>(N)); vector<double> E = row(p.o); for (auto& x : p.v) E.push_back(x.v);
  for (int i = 0; i < N; i++) { for (int k = 0; k < no; k++) P[k][cols[i]] = p.c[k][i].v; for (int j = 0; j < N; j++) S[cols[i]][cols[j]] = d.S[i < j ? j : i][i < j ? i : j].v; }
  vector<double> b2(N, 0); if (cp) { int q = 0; for (int i : all2) for (int k = 0; k < nb[i]; k++) b2[first[i] + k] = b.c[h2][q++].v; }
  Ref r = reference(cp ? row(a.c[h1]) : pad(row(a.c[h1]), 0, N), cp ? b2 : pad(row(b.c[h2]), N1, N), P, S, E); const double h = 27.2114;
  double j = shown("J_ab", "J_ab printed"), ea = shown("e_a", "e_a printed"), eb = shown("e_b", "e_b printed"), s = shown("S_ab", "S_ab printed"), je = shown("J_eff", "J_eff printed");
  sym_check_near(je, r.num / r.den * h, 1e-5, "J_eff is the projected transfer integral");
  sym_check_near(j, r.J * h, 1e-5, "J_ab"); sym_check_near(ea, r.ea * h, 1e-5, "e_a"); sym_check_near(eb, r.eb * h, 1e-5, "e_b"); sym_check_near(s, r.S, 1e-5, "S_ab"); sym_reach("large");
}
