// C09: changing sizes keeps the elements that still fit
#include "h.h"
#include <climits>
using namespace catnip;
typedef std::vector<double> VD;
struct M3 { int r, c, s; VD v; double at(int i, int j, int k) const { return v[((i - 1) * c + j - 1) * s + k - 1]; } };
static M3 snap(const Matrix& m) { return {m.get_rows(), m.get_cols(), m.get_shel(), vals(m)}; }
static void expect(const Matrix& m, const M3& old, int r, int c, int s, int keep) {
  sym_check(m.get_rows() == r && m.get_cols() == c && m.get_shel() == s, "new sizes reported");
  if (!(m.get_rows() == r && m.get_cols() == c && m.get_shel() == s)) return;
  for (int i = 1; i <= r; i++) for (int j = 1; j <= c; j++) for (int k = 1; k <= s; k++)
    sym_check_eqd(m.get_elem(i, j, k), i <= old.r && j <= old.c && k <= old.s ? old.at(i, j, k) : 0, "kept where it fits, zero elsewhere");
}
static int pick(const char* n, int mx) { return sym_choose(n, mx) + 1; }
// one change with any new size
static int change(Matrix* m, int how, int x, int y) { return outcome([&] { if (how == 0) m->set_rows(x); else if (how == 1) m->set_cols(x); else if (how == 2) m->set_shel(x); else m->resize(x, y); }); }
extern "C" void t_one() {
  int mx = sym_param("max", 3), how = sym_choose("how", 4), R = pick("R", mx), C = pick("C", mx), S = pick("S", 2);
  Matrix* m = mat("m", R, C, S); M3 old = snap(*m);
  int x = sym_int("x", -2, mx + 1), y = how == 3 ? sym_int("y", -2, mx + 1) : 1;
  int o = change(m, how, x, y);
  if (x < 0 || (how == 3 && (x < 1 || y < 1))) {
    sym_check(o != 0, "size that is not positive refused");
    expect(*m, old, R, C, S, 1); sym_reach("refused");
  } else if (x > 0) {
    sym_check(o == 0, "positive size accepted");
    expect(*m, old, how == 0 || how == 3 ? x : R, how == 1 ? x : how == 3 ? y : C, how == 2 ? x : how == 3 ? 1 : S, 1);
    sym_check(m->total_elem() == m->get_rows() * m->get_cols() * m->get_shel(), "element count");
    sym_reach("changed");
  }
  sym_obs_int("o", o);
}
// any negative number is refused
extern "C" void t_neg() {
  Matrix* m = mat("m", 2, 2, 2); M3 old = snap(*m);
  int how = sym_choose("how", 4), x = sym_int("x", INT_MIN, -1);
  int o = change(m, how, x, 1);
  sym_check(o != 0, "negative size refused");
  expect(*m, old, 2, 2, 2, 1);
  if (how == 3) sym_check(change(m, 3, 1, x) != 0, "negative number of columns refused");
  sym_obs_int("o", o);
}
// given negative sizes, of which the number of elements may wrap around
extern "C" void t_wrap() {
  static const int X[] = {-1, -2, -3, -65536, -(1 << 29), -(1 << 30), INT_MIN, INT_MIN + 1, -2147483000};
  Matrix* m = mat("m", 2, 2, 2); M3 old = snap(*m); int how = sym_choose("how", 4), x = X[sym_choose("x", 9)];
  sym_check(change(m, how, x, 1) != 0, "negative size refused"); expect(*m, old, 2, 2, 2, 1);
  if (how == 3) sym_check(change(m, 3, 1, x) != 0, "negative number of columns refused");
  sym_reach("wrap");
}
// sequences of changes, with writes in between
extern "C" void t_seq() {
  int n = sym_param("n", 3), R = pick("R", 2), C = pick("C", 2);
  Matrix* m = mat("m", R, C, 1); M3 old = snap(*m);
  for (int q = 0; q < n; q++) {
    int how = sym_choose(nm("how", q).c_str(), 4), x = pick(nm("x", q).c_str(), 3), y = how == 3 ? pick(nm("y", q).c_str(), 2) : 1;
    int o = change(m, how, x, y);
    sym_check(o == 0, "positive size accepted");
    if (o) return;
    int r = how == 0 || how == 3 ? x : old.r, c = how == 1 ? x : how == 3 ? y : old.c, s = how == 2 ? x : how == 3 ? 1 : old.s;
    expect(*m, old, r, c, s, 1);
    m->set_elem(dbl(nm("w", q)), r, c, s);
    old = snap(*m);
  }
  sym_reach("sequence");
  sym_obs_d("last", m->get_elem(old.r, old.c, old.s));
}

// larger matrices
extern "C" void t_big() {
  int how = sym_choose("how", 4), R = sym_choose("long", 2) ? sym_param("n", 24) : 3, C = R == 3 ? sym_param("n", 24) : 2, S = 1 + sym_choose("S", 2);
  Matrix* m = new Matrix(R, C, S); for (int i = 1; i <= R; i++) for (int j = 1; j <= C; j++) for (int k = 1; k <= S; k++) m->set_elem(i * 100 + j + k * 0.25, i, j, k);
  m->set_elem(dbl("v"), R - 1, C - 1, S); M3 old = snap(*m);
  int x = 1 + sym_choose("x", sym_param("n", 24) + 6), y = how == 3 ? R == 3 ? 30 : 1 : 1;
  int o = change(m, how, x, y);
  sym_check(o == 0, "positive size accepted"); if (o) return;
  expect(*m, old, how == 0 || how == 3 ? x : R, how == 1 ? x : how == 3 ? y : C, how == 2 ? x : how == 3 ? 1 : S, 1);
  sym_obs_int("o", o); sym_reach("large");
}

// hundreds of rows, columns or shelves, changed to nearby, far smaller and far larger sizes
extern "C" void t_huge() {
  static const int Z[][3] = {{300, 3, 1}, {3, 300, 1}, {2, 3, 200}, {70, 70, 1}, {12, 40, 3}}; auto& z = Z[sym_choose("z", 5)]; int how = sym_choose("how", 4), R = z[0], C = z[1], S = z[2];
  Matrix* m = new Matrix(R, C, S); for (int i = 1; i <= R; i++) for (int j = 1; j <= C; j++) for (int k = 1; k <= S; k++) m->set_elem(i * 512.0 + j + k / 512.0, i, j, k);
  m->set_elem(dbl("v"), R, C, S); m->set_elem(dbl("w"), (R + 1) / 2, (C + 1) / 2, 1); M3 old = snap(*m);
  int was = how == 0 || how == 3 ? R : how == 1 ? C : S, to = sym_choose("to", 4), x = to == 0 ? was + 1 : to == 1 ? (was > 1 ? was - 1 : 1) : to == 2 ? (was + 1) / 2 : was + 67, y = how != 3 ? 1 : to == 0 ? C + 1 : to == 1 ? C + 70 : to == 2 ? C : (C + 1) / 2;
  int o = change(m, how, x, y); sym_check(o == 0, "positive size accepted"); if (o) return;
  expect(*m, old, how == 0 || how == 3 ? x : R, how == 1 ? x : how == 3 ? y : C, how == 2 ? x : how == 3 ? 1 : S, 1);
  sym_obs_int("o", o); sym_reach("huge");
}
