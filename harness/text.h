// Text of calculation files with symbolic digits, and the values the text denotes.
#pragma once
#include "h.h"
#include "io/file_readers/logreader.hpp"
#include "io/file_readers/punreader.hpp"
#include <cmath>
using namespace catnip;
using std::string; using std::vector;
struct Num { string s; double v; };
static string padl(string s, size_t w) { while (s.size() < w) s = " " + s; return s; }
static string padr(string s, size_t w) { while (s.size() < w) s += " "; return s; }
static string I(int v, int w) { return padl(std::to_string(v), w); }
static bool plainDigits = false;  // concrete digits instead of symbolic ones
// id digits before and fd after the point, right aligned in w characters
static Num fixed(const string& name, bool neg, int id, int fd, int w = 0) {
  string s = neg ? "-" : ""; double m = 0, f = 1;
  for (int i = 0; i < id + fd; i++) {
    if (i == id) s += ".";
    char c = plainDigits ? '1' + (name.size() + name[name.size() - 1] + 3 * i) % 9 : sym_char((name + "_" + std::to_string(i)).c_str(), '0', '9');
    s += c; m = m * 10 + (c - '0'); if (i >= id) f *= 10;
  }
  Num n; n.s = padl(s, w); n.v = (neg ? -m : m) / f; return n;
}
static double p10(int e) { double r = 1; for (; e > 0; e--) r *= 10; for (; e < 0; e++) r /= 10; return r; }
// Fortran notation with a D exponent
static Num fort(const string& name, bool neg, int id, int fd, int e, int w = 0) {
  Num n = fixed(name, neg, id, fd);
  char b[8]; snprintf(b, sizeof b, "D%c%02d", e < 0 ? '-' : '+', e < 0 ? -e : e);
  n.s = padl(n.s + b, w); n.v = e < 0 ? n.v / p10(-e) : n.v * p10(e); return n;
}
typedef vector<vector<Num>> NTab;
// replays compare relative to the value, so that a small one counts as much as a large one
static void sameNum(double x, double v, const char* l) { if (sym_symbolic() || v == 0) sym_check_eqd(x, v, l); else sym_check_eqd(x / v, 1, l); }
static string file_(const char* name, const string& text) { sym_file(name, text.data(), text.size()); return name; }
// ---- pun files: 15 characters per value, five per line ----
static string punOrb(const char* spin, int k, const vector<Num>& v) {
  string s = padl(std::to_string(k), 5) + " " + spin + " MO OE=-0.10118521D+01\n";
  for (size_t i = 0; i < v.size(); i++) { s += v[i].s; if (i % 5 == 4 || i + 1 == v.size()) s += "\n"; }
  return s;
}
static int expo(int i) { static const int e[] = {0, -1, 1, -2}; return e[i & 3]; }
static NTab punVals(const char* p, int no, int nb) {
  NTab t(no); for (int i = 0; i < no; i++) for (int j = 0; j < nb; j++) t[i].push_back(fort(nm(p, i, j), (i + j) % 2, 1, 8, expo(i * 3 + j), 15));
  return t;
}
static string punSpin(const char* spin, const NTab& t) { string s; for (size_t i = 0; i < t.size(); i++) s += punOrb(spin, i + 1, t[i]); return s; }
static void sameMat(Matrix* m, const NTab& t, const char* l) {
  sym_check(m && m->get_rows() == (int)t.size() && m->get_cols() == (int)t[0].size() && m->get_shel() == 1, "size of the matrix");
  if (m && m->get_rows() == (int)t.size() && m->get_cols() == (int)t[0].size())
    for (size_t i = 0; i < t.size(); i++) for (size_t j = 0; j < t[i].size(); j++) sameNum(m->get_elem(i + 1, j + 1), t[i][j].v, l);
}
// ---- log files ----
struct EnergyStyle { int joined; };
// a listing of energies of one spin; style 0: separate columns, 1: three digits before the point so that negative ones run together
static string energyLines(const char* spin, const vector<Num>& occ, const vector<Num>& virt) {
  string s; bool beta = spin[0] == 'B';
  for (int v = 0; v < 2; v++) {
    const vector<Num>& e = v ? virt : occ;
    for (size_t i = 0; i < e.size(); i++) {
      if (i % 5 == 0) s += string(beta ? "  " : " ") + spin + (v ? " virt. eigenvalues -- " : "  occ. eigenvalues -- ");
      s += e[i].s;
      if (i % 5 == 4 || i + 1 == e.size()) s += "\n";
    }
  }
  return s;
}
static Num energy(const string& n, bool neg, bool wide) { return fixed(n, neg, wide ? 3 : 2, 5, 10); }
static vector<Num> energies(const char* p, int n, int style, bool neg) {
  vector<Num> r; for (int i = 0; i < n; i++) r.push_back(energy(nm(p, i), neg, style == 1 || (style == 2 && i % 5 < 3) || (style == 3 && i % 2))); return r;
}
static void sameEnergies(const LogReader& r, const char* spin, const vector<Num>& occ, const vector<Num>& virt) {
  vector<double> e = r.getOE(spin);
  sym_check(e.size() == occ.size() + virt.size(), "number of energies");
  sym_check(r.getHOMOLevel(spin) == (int)occ.size(), "number of occupied orbitals");
  if (e.size() == occ.size() + virt.size())
    for (size_t i = 0; i < e.size(); i++) sameNum(e[i], i < occ.size() ? occ[i].v : virt[i - occ.size()].v, "energy in file order");
}
// lower triangle in blocks of five columns
static NTab ovVals(const char* p, int n, bool unit = false) { NTab t(n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) t[i].push_back(fort(nm(p, i, j), (i + j) % 2, 1, 6, expo(i + j), 14)); return t; }
static string overlapText(const NTab& t) {
  string s = " *** Overlap *** \n"; int n = t.size();
  for (int b = 0; b < n; b += 5) {
    for (int j = b; j < n && j < b + 5; j++) s += I(j + 1, j == b ? 17 : 14);
    s += "\n";
    for (int i = b; i < n; i++) { s += I(i + 1, 7); for (int j = b; j <= i && j < b + 5; j++) s += t[i][j].s; s += "\n"; }
  }
  return s + " *** Kinetic Energy ***\n";
}
static void sameOverlap(Matrix* m, const NTab& t) {
  int n = t.size();
  sym_check(m && m->get_rows() == n && m->get_cols() == n, "size of the overlap matrix");
  if (m && m->get_rows() == n && m->get_cols() == n)
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) sameNum(m->get_elem(i + 1, j + 1), t[i < j ? j : i][i < j ? i : j].v, "overlap in its place");
}
// atom positions
static NTab coords(const char* p, int n) { NTab t(n); for (int i = 0; i < n; i++) for (int c = 0; c < 3; c++) t[i].push_back(fixed(nm(p, i, c), (i + c) % 2, 1 + (i + c) % 3, 6, 12)); return t; }
static const string DASH = " ---------------------------------------------------------------------\n";
static string coordText(const NTab& t, bool input = false) {
  string s = string(input ? "                          Input orientation:                          \n" : "                         Standard orientation:                         \n") + DASH +
    (input ? " Center     Atomic     Atomic              Coordinates (Angstroms)\n" : " Center     Atomic      Atomic             Coordinates (Angstroms)\n") +
    " Number     Number      Type              X           Y           Z\n" + DASH;
  for (size_t i = 0; i < t.size(); i++) s += I(i + 1, 7) + I(6, 11) + I(0, 12) + "    " + t[i][0].s + t[i][1].s + t[i][2].s + "\n";
  return s + DASH;
}
static void sameCoords(const LogReader& r, const NTab& t) {
  vector<vector<double>> c = r.getCoords();
  sym_check(c.size() == 3, "three coordinates"); if (c.size() != 3) return;
  for (int k = 0; k < 3; k++) {
    sym_check(c[k].size() == t.size(), "a position for every atom");
    if (c[k].size() == t.size()) for (size_t i = 0; i < t.size(); i++) sameNum(c[k][i], t[i][k].v, "position of the atom");
  }
}
// populations: label sequence of an atom with n functions
static const char* SHELL[] = {"1S", "2S", "2PX", "2PY", "2PZ", "3S", "3PX", "3PY", "3PZ", "4D 0", "4D+1", "4D-1", "4D+2", "4D-2", "5S", "5PX", "5PY", "5PZ"};
static string shellName(int k) { static const char* M[] = {"S", "PX", "PY", "PZ"}; return k < 18 ? string(SHELL[k]) : std::to_string(6 + (k - 18) / 4) + M[(k - 18) % 4]; }
static string popText(const vector<int>& n, const char* const* elem, const char* p, bool digits = true) {
  string s = "     Gross orbital populations:\n                           Total     Alpha     Beta      Spin\n"; int ao = 0;
  for (size_t a = 0; a < n.size(); a++) for (int k = 0; k < n[a]; k++) {
    ao++;
    s += I(ao, 4) + (k ? string(8, ' ') : " " + padr(std::to_string(a + 1), 4) + padr(elem[a], 3)) + padr(shellName(k), 10);
    for (int c = 0; c < 4; c++) s += digits && c == 0 ? fixed(nm(p, ao), false, 1, 5, 10).s : string("   0.49875");
    s += "\n";
  }
  return s + "         Condensed to atoms (all electrons):\n";
}
