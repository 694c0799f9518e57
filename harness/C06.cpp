// C06: matching of rows and columns by value
#include "h.h"
#include <cmath>
using namespace catnip; using std::vector;
static double p10(int d) { double t = 1; for (int i = 0; i < d; i++) t *= 10; return t; }
// a value that rounds to k decimal units, and its k
struct V { int k; double x; };
static V value(const std::string& n, int dec, int lim) {
  V v; v.k = sym_int((n + "k").c_str(), -lim, lim);
  double off = sym_param("offset", 1) ? dbl(n + "o", -0.45, 0.45) : 0;
  v.x = (v.k + off) / p10(dec); return v;
}
static Matrix* build(const vector<vector<V>>& t, bool rows) {
  int r = t.size(), c = t[0].size(); Matrix* m = rows ? new Matrix(r, c) : new Matrix(c, r);
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) if (rows) m->set_elem(t[i][j].x, i + 1, j + 1); else m->set_elem(t[i][j].x, j + 1, i + 1);
  return m;
}
static void judge(const vector<vector<V>>& A, const vector<vector<V>>& B, bool rows, int dec) {
  Matrix *a = build(A, rows), *b = build(B, rows);
  vector<int> m = rows ? a->matchRow(*b, dec) : a->matchCol(*b, dec);
  sym_check(m.size() == A.size(), "one answer per row or column");
  if (m.size() != A.size()) return;
  for (size_t i = 0; i < A.size(); i++) {
    int any = 0, at = 0;
    for (size_t q = 0; q < B.size(); q++) {
      int eq = 1; for (size_t j = 0; j < A[i].size(); j++) eq = sym_and(eq, sym_eqd(A[i][j].k, B[q][j].k));
      any = sym_or(any, eq); at = sym_or(at, sym_and(eq, m[i] == (int)q + 1));
    }
    sym_check(sym_or(sym_and(any, at), sym_and(!any, m[i] == -1)), rows ? "matching row" : "matching column");
    sym_obs_int("m", m[i]);
    if (m[i] > 0) sym_reach("match"); else sym_reach("no match");
  }
}
// any values
extern "C" void t_values() {
  int rows = sym_choose("rows", 2), dec = sym_param("dec", 4), na = sym_param("na", 1), nb = sym_param("nb", 2), w = sym_param("w", 1), L = sym_param("lim", 2000000);
  vector<vector<V>> A(na, vector<V>(w)), B(nb, vector<V>(w));
  for (int i = 0; i < na; i++) for (int j = 0; j < w; j++) A[i][j] = value(nm("a", i, j), dec, L);
  for (int i = 0; i < nb; i++) for (int j = 0; j < w; j++) B[i][j] = value(nm("b", i, j), dec, L);
  judge(A, B, rows, dec);
}
// selected difficult values in every combination: sign of zero, long numbers, differences in the last asked decimal
static const long K[] = {0, 1, -1, 12, 10000, 1234567, 1234568, 1234567890, 1234567891, -1234567890, 123456789012, 123456789013};
extern "C" void t_long() {
  int rows = sym_choose("rows", 2), dec = sym_param("dec", 4), nk = sizeof K / sizeof *K;
  int i = sym_choose("i", nk), j = sym_choose("j", nk), z = sym_choose("z", 4);
  double x = K[i] / p10(dec), y = K[j] / p10(dec), e = 0.2 / p10(dec);
  if (z & 1) x -= e; if (z & 2) y -= e;
  Matrix a = rows ? Matrix(1, 2) : Matrix(2, 1), b = a;
  a.set_elem(7.25, 1, 1); b.set_elem(7.25, 1, 1);
  int r = rows ? 1 : 2, c = rows ? 2 : 1;
  a.set_elem(x, r, c); b.set_elem(y, r, c);
  vector<int> m = rows ? a.matchRow(b, dec) : a.matchCol(b, dec);
  sym_check(m.size() == 1 && m[0] == (i == j ? 1 : -1), "long or signed values");
  sym_obs_int("m", m[0]);
}
// many rows or columns: the position found is the right one
extern "C" void t_many() {
  int rows = sym_choose("rows", 2), n = sym_param("n", 12), k = n > 100 ? sym_choose("k", 5) * n / 4 : sym_choose("k", n + 1), two = sym_choose("two", 2);
  Matrix a = rows ? Matrix(two + 1, 1) : Matrix(1, two + 1), b = rows ? Matrix(n, 1) : Matrix(1, n);
  for (int i = 1; i <= n; i++) b.set_elem(i * 0.5, rows ? i : 1, rows ? 1 : i);
  a.set_elem(k == n ? 9900.25 : (k + 1) * 0.5, 1, 1);
  if (two) a.set_elem(n * 0.5, rows ? 2 : 1, rows ? 1 : 2);
  vector<int> m = rows ? a.matchRow(b, 4) : a.matchCol(b, 4);
  sym_check((int)m.size() == two + 1, "one answer per row or column");
  sym_check(m[0] == (k == n ? -1 : k + 1), "position of the match");
  if (two) sym_check(m[1] == n, "position of the second match");
  sym_obs_int("m", m[0]);
}
// wide rows: two rows of w entries that differ in one position, by any value
extern "C" void t_wide() {
  int rows = sym_choose("rows", 2), w = 1 + sym_choose("w", sym_param("max", 8)), p = sym_choose("p", w), dec = 4;
  V v = value("v", dec, 900000);
  Matrix a = rows ? Matrix(2, w) : Matrix(w, 2), b = rows ? Matrix(3, w) : Matrix(w, 3);
  auto put = [&](Matrix& m, int i, int j, double x) { rows ? m.set_elem(x, i, j) : m.set_elem(x, j, i); };
  for (int j = 1; j <= w; j++) { put(a, 1, j, j * 0.25); put(a, 2, j, 700); put(b, 1, j, 100); put(b, 2, j, j == p + 1 ? v.x : j * 0.25); put(b, 3, j, j == w ? 700.5 : 700); }
  vector<int> m = rows ? a.matchRow(b, dec) : a.matchCol(b, dec);
  sym_check(m.size() == 2, "one answer per row or column"); if (m.size() != 2) return;
  int eq = sym_eqd(v.k, (p + 1) * 2500);
  sym_check(sym_or(sym_and(eq, m[0] == 2), sym_and(!eq, m[0] == -1)), "every position counts");
  sym_check(m[1] == -1, "the last position counts");
  sym_obs_int("m", m[0]);
}
// matrices that cannot be compared are refused
extern "C" void t_sizes() {
  int rows = sym_choose("rows", 2), w1 = 1 + sym_choose("w1", 3), w2 = 1 + sym_choose("w2", 3), s1 = 1 + sym_choose("s1", 2), s2 = 1 + sym_choose("s2", 2);
  Matrix a = rows ? Matrix(2, w1, s1) : Matrix(w1, 2, s1), b = rows ? Matrix(1, w2, s2) : Matrix(w2, 1, s2);
  int o = outcome([&] { rows ? a.matchRow(b, 4) : a.matchCol(b, 4); });
  sym_check((o == 0) == (w1 == w2 && s1 == 1 && s2 == 1), "only matrices of one shelf and equal width are compared");
  sym_obs_int("o", o);
}
