// C04: inconsistent sizes never give a number
#include "qc.h"
struct Sz { int r1, c1, r2, c2, rp, cp, rs, cs, re, ce, o1, o2; };
static void judge_sizes(const Sz& z, int cp, int usefn) {
  double l = 0.05;
  Tab a = tab("a", z.r1, z.c1, -l, l), b = tab("b", z.r2, z.c2, -l, l), P = tab("p", z.rp, z.cp, -l, l), S = tab("s", z.rs, z.cs, -1, 1), E = tab("e", z.re, z.ce, -2, 2);
  int ok = z.cs == z.cp && z.rs == z.cp && z.o1 == z.r1 && z.o2 == z.r2 && ((z.ce == 1 && z.re == z.rp) || (z.re == 1 && z.ce == z.rp));
  ok = ok && (cp ? z.c1 == z.cp && z.c2 == z.cp : z.c1 + z.c2 == z.cp);
  double J = 0; bool got = false;
  sym_out_clear();
  int o = outcome([&] {
    TransferComplex tc(mk(a), mk(b), mk(P), {z.o1, 1}, {z.o2, 1}, mk(S), mk(E), cp);
    J = tc.calcJ(types("HOMO", "HOMO"), nums(0, 0)); got = true; });
  sym_check((o == 0) == (ok != 0), "a result exactly for consistent sizes");
  if (o) { sym_check(!got, "no result after an error"); sym_check(!sym_out_contains("J_eff"), "nothing printed for inconsistent sizes"); sym_reach("refused"); }
  else sym_reach("accepted");
  sym_obs_int("o", o);
}
static int ch(const char* n, int k) { return 1 + sym_choose(n, k); }
// monomer, dimer and overlap sizes
extern "C" void t_basis() {
  int cp = sym_param("cp", 1), m = sym_param("max", 3), p = cp ? m : m + 1;
  int c1 = ch("c1", m), c2 = ch("c2", m), n = ch("cp", p), rs = ch("rs", p), cs = ch("cs", p);
  judge_sizes({1, c1, 1, c2, 2, n, rs, cs, 2, 1, 1, 1}, cp, 0);
}
// orbitals and energies
extern "C" void t_orbitals() {
  int cp = sym_param("cp", 1);
  int r1 = ch("r1", 2), r2 = ch("r2", 2), rp = ch("rp", 3), re = ch("re", 3), ce = ch("ce", 3), o1 = ch("o1", 3), o2 = ch("o2", 3);
  judge_sizes({r1, cp ? 2 : 1, r2, cp ? 2 : 1, rp, 2, 2, 2, re, ce, o1, o2}, cp, 0);
}
// the formula itself refuses the same way when it is called directly
extern "C" void t_direct() {
  int cp = sym_param("cp", 1), m = 3;
  int c1 = ch("c1", m), c2 = ch("c2", m), n = ch("cp", m), rs = ch("rs", m), cs = ch("cs", m), rp = ch("rp", 2), re = ch("re", 3);
  double l = 0.05;
  Tab a = tab("a", 1, c1, -l, l), b = tab("b", 1, c2, -l, l), P = tab("p", rp, n, -l, l), S = tab("s", rs, cs, -1, 1), E = tab("e", re, 1, -2, 2);
  int ok = cs == n && re == rp && (cp ? c1 == rs && c2 == rs : c1 + c2 == rs);
  int o = outcome([&] { calculate_transfer_integral(*mk(a), *mk(b), *mk(P), *mk(S), *mk(E), cp); });
  sym_check((o == 0) == (ok != 0), "a result exactly for sizes that can be multiplied");
  if (o) sym_reach("refused");
  sym_obs_int("o", o);
}

// larger systems: consistent ones give a result, and one size wrong by one or by much never does
extern "C" void t_large() {
  int cp = sym_choose("cp", 2), n = sym_param("n", 40), no = sym_param("no", 30), which = sym_choose("which", 13), d = which == 12 ? 0 : sym_choose("by", 3), k = d == 0 ? 1 : d == 1 ? -1 : -7, m = n * 3 / 5;
  int z[12] = {3, cp ? n : m, 2, cp ? n : n - m, no, n, n, n, no, 1, 3, 2}; if (which < 12) z[which] += z[which] + k > 0 ? k : 1;
  auto given = [](int r, int c, double s) { Tab t(r, vector<double>(c)); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) t[i][j] = ((i * 7 + j * 5) % 17 - 8) * s; return t; };
  Tab a = given(z[0], z[1], 0.0078125), b = given(z[2], z[3], 0.0078125), P = given(z[4], z[5], 0.0078125), S = given(z[6], z[7], 0.00390625), E = given(z[8], z[9], 0.5);
  for (int i = 0; i < z[6] && i < z[7]; i++) S[i][i] = 1;
  a[0][z[1] - 1] = dbl("a", -0.125, 0.125); double J = 0; bool got = false; sym_out_clear();
  // a whole second column of energies, or orbitals declared that are not there, or a smaller number of them
  int o = outcome([&] { TransferComplex tc(mk(a), mk(b), mk(P), {z[10], 1}, {z[11], 1}, mk(S), mk(E), cp); J = tc.calcJ(types("HOMO", "HOMO"), nums(0, 0)); got = true; });
  sym_check((o == 0) == (which == 12), "a result exactly for consistent sizes");
  if (o) { sym_check(!got, "no result after an error"); sym_check(!sym_out_contains("J_eff"), "nothing printed for inconsistent sizes"); }
  sym_obs_int("o", o); sym_reach("large");
}
