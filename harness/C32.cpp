// C32: the warning about basis functions that were not lined up
#include "C28.cpp"
static void warned(int want, const char* what) { sym_check(sym_err_contains("WARNING") == want, what); }
// the program: any of the log files may lack the populations
extern "C" void t_program() {
  int cp = sym_choose("cp", 2), which = sym_choose("with", 8); plainDigits = true; World w(cp, ORD[0], false);
  files(w, ".pun", ".pun", ".pun", which & 1, which & 2, which & 4); vector<string> v = args(sym_choose("form", 2)); if (cp) v.push_back("-cp");
  if (!check0(go(v))) return;
  if (which == 7) { warned(0, "no warning when the basis functions are lined up"); sym_reach("lined up"); }
  else { warned(1, "a warning when they are not"); sym_reach("warned"); }
}
// a complex asked several times: before and after lining up
extern "C" void t_complex() {
  int cp = sym_choose("cp", 2), n1 = cp ? 2 : 1, h = sym_choose("again", 2); double l = 0.25;
  Tab a = tab("a", 1, n1, -l, l), b = tab("b", 1, n1, -l, l), P = tab("p", 1, 2, -l, l), S = tab("s", 2, 2, -1, 1), E = tab("e", 1, 1, -1, 1);
  TransferComplex tc(mk(a), mk(b), mk(P), {1, 1}, {1, 1}, mk(S), mkcol(E[0]), cp);
  auto ask = [&](int want, const char* what) { sym_out_clear(); tc.calcJ(types("HOMO", "HOMO"), nums(0, 0)); warned(want, what); };
  if (h) { ask(1, "a warning when the basis functions are not lined up"); ask(1, "a warning for every result"); }
  Tab x(3, vector<double>(2, 0)); x[0][1] = 1.5; x[2][0] = -2; Matrix C(x); vector<int> one = {1}, two = {1, 1};
  Tab x1(3, vector<double>(1, 0)), x2 = x1; x1[2][0] = -2; x2[0][0] = 1.5; Matrix C1(x1), C2(x2);
  if (cp) tc.unscramble(C, C, C, two, two); else tc.unscramble(C1, C2, C, two, one);
  ask(0, "no warning once they are lined up"); ask(0, "no warning once they are lined up"); sym_reach("complex");
}
