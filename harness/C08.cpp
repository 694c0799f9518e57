// C08: element access and bounds
#include "h.h"
#include <climits>
using namespace catnip;
static int pick(const char* n, int mx) { return sym_choose(n, mx) + 1; }
// write one element: exactly that element changes, anything outside is refused
extern "C" void t_set3() {
  int R = pick("R", sym_param("max", 3)), C = pick("C", sym_param("max", 3)), S = pick("S", 2);
  Matrix* m = mat("m", R, C, S);
  std::vector<double> old = vals(*m);
  int i = sym_int("i", INT_MIN, INT_MAX), j = sym_int("j", INT_MIN, INT_MAX), k = sym_int("k", INT_MIN, INT_MAX);
  double v = dbl("v");
  int o = outcome([&] { m->set_elem(v, i, j, k); });
  int in = sym_and(sym_and(i >= 1, i <= R), sym_and(sym_and(j >= 1, j <= C), sym_and(k >= 1, k <= S)));
  sym_check(in == (o == 0), "write accepted exactly inside");
  sym_check(m->get_rows() == R && m->get_cols() == C && m->get_shel() == S, "dimensions unchanged");
  sym_check(m->total_elem() == R * C * S, "element count");
  int q = 0;
  for (int a = 1; a <= R; a++) for (int b = 1; b <= C; b++) for (int c = 1; c <= S; c++, q++)
    sym_check_eqd(m->get_elem(a, b, c), o == 0 && a == i && b == j && c == k ? v : old[q], "only the addressed element changes");
  int o2 = outcome([&] { double x = m->get_elem(i, j, k); sym_check_eqd(x, v, "element read back"); sym_reach("read back"); });
  sym_check((o2 == 0) == (o == 0), "read accepted exactly inside");
  if (o) sym_reach("refused");
  sym_obs_int("o", o);
}
extern "C" void t_set2() {
  int R = pick("R", 3), C = pick("C", 3);
  Matrix m(R, C);
  for (int a = 1; a <= R; a++) for (int b = 1; b <= C; b++) sym_check_eqd(m.get_elem(a, b), 0, "new matrix is zero");
  int i = sym_int("i", INT_MIN, INT_MAX), j = sym_int("j", INT_MIN, INT_MAX);
  double v = dbl("v");
  int in = sym_and(sym_and(i >= 1, i <= R), sym_and(j >= 1, j <= C));
  int o = outcome([&] { m.set_elem(v, i, j); });
  sym_check(in == (o == 0), "write accepted exactly inside");
  for (int a = 1; a <= R; a++) for (int b = 1; b <= C; b++) sym_check_eqd(m.get_elem(a, b), o == 0 && a == i && b == j ? v : 0, "only the addressed element changes");
  double got = 0;
  int o2 = outcome([&] { got = m.get_elem(i, j); });
  sym_check(in == (o2 == 0), "read accepted exactly inside");
  if (o2 == 0) { sym_check_eqd(got, v, "element read back"); sym_check_eqd(*m.get_elem_ptr(i, j), v, "pointer to the element"); }
  sym_obs_int("o", o);
}
extern "C" void t_set1() {
  int R = pick("R", 4);
  Matrix m(R);
  int i = sym_int("i", INT_MIN, INT_MAX);
  double v = dbl("v");
  int in = sym_and(i >= 1, i <= R);
  int o = outcome([&] { m.set_elem(v, i); });
  sym_check(in == (o == 0), "write accepted exactly inside");
  for (int a = 1; a <= R; a++) sym_check_eqd(m.get_elem(a), o == 0 && a == i ? v : 0, "only the addressed element changes");
  double got = 0;
  int o2 = outcome([&] { got = m.get_elem(i); });
  sym_check(in == (o2 == 0), "read accepted exactly inside");
  if (o2 == 0) sym_check_eqd(got, v, "element read back");
  Matrix one;
  one.set_elem(v);
  sym_check(one.get_rows() == 1 && one.get_cols() == 1 && one.get_shel() == 1, "default matrix is 1x1");
  sym_check_eqd(one.get_elem(), v, "single element");
  sym_obs_int("o", o);
}
// dimensions: a matrix can only be made with positive sizes
extern "C" void t_make() {
  int r = sym_int("r", INT_MIN, 3), c = sym_int("c", INT_MIN, 3), s = sym_int("s", INT_MIN, 3);
  Matrix* m = nullptr;
  int o = outcome([&] { m = new Matrix(r, c, s); });
  sym_check((o == 0) == sym_and(r >= 1, sym_and(c >= 1, s >= 1)), "only positive sizes");
  if (o == 0) { sym_check(m->get_rows() == r && m->get_cols() == c && m->get_shel() == s, "sizes as asked"); sym_reach("made"); for (double x : vals(*m)) sym_check_eqd(x, 0, "new matrix is zero"); }
  int o2 = outcome([&] { m = new Matrix(r, c); });
  sym_check((o2 == 0) == sym_and(r >= 1, c >= 1), "only positive sizes (2d)");
  int o3 = outcome([&] { m = new Matrix(r); });
  sym_check((o3 == 0) == (r >= 0), "only non-negative sizes (1d)");
  if (o3 == 0 && r > 0) sym_check(m->get_rows() == r && m->get_cols() == 1 && m->get_shel() == 1, "1d is a column");
  if (o3 == 0 && r == 0) sym_check(m->total_elem() == 0, "empty matrix");
  sym_obs_int("o", o + 3 * o2);
}
// matrices made from data hold that data
extern "C" void t_data() {
  int R = pick("R", 3), C = pick("C", 3);
  std::vector<std::vector<double>> vv;
  for (int a = 0; a < R; a++) { std::vector<double> v; for (int b = 0; b < C; b++) v.push_back(dbl(nm("d", a, b))); vv.push_back(v); }
  Matrix m(vv);
  sym_check(m.get_rows() == R && m.get_cols() == C && m.get_shel() == 1, "table sizes");
  for (int a = 0; a < R; a++) for (int b = 0; b < C; b++) sym_check_eqd(m.get_elem(a + 1, b + 1), vv[a][b], "table element");
  Matrix m1(vv[0]);
  sym_check(m1.get_rows() == C && m1.get_cols() == 1, "column sizes");
  for (int b = 0; b < C; b++) sym_check_eqd(m1.get_elem(b + 1), vv[0][b], "column element");
  std::vector<int> iv; for (int b = 0; b < C; b++) iv.push_back(sym_int(nm("i", b).c_str(), -1000000, 1000000));
  Matrix m2(iv);
  for (int b = 0; b < C; b++) sym_check_eqd(m2.get_elem(b + 1, 1), iv[b], "integer element");
  // ragged table
  int a = sym_choose("a", R), n = sym_choose("n", 4);
  std::vector<std::vector<double>> rg = vv; rg[a].resize(n, 1.0);
  bool ragged = false; for (auto& v : rg) if (v.size() != rg[0].size()) ragged = true;
  int o = outcome([&] { Matrix x(rg); });
  if (ragged) { sym_check(o != 0, "ragged table refused"); sym_reach("ragged"); }
  sym_obs_int("o", o);
}

// a larger matrix: any number along one axis
extern "C" void t_big() {
  int R = sym_param("R", 30), C = sym_param("C", 13), S = 4, axis = sym_choose("axis", 3), x[3] = {R - 1, C - 1, S - 1}, N = axis == 0 ? R : axis == 1 ? C : S;
  if (sym_choose("low", 2)) { x[0] = 1; x[1] = 2; x[2] = 1; }
  Matrix m(R, C, S); auto val = [](int a, int b, int c) { return a * 100 + b + c * 0.125; };
  for (int a = 1; a <= R; a++) for (int b = 1; b <= C; b++) for (int c = 1; c <= S; c++) m.set_elem(val(a, b, c), a, b, c);
  int i = sym_int("i", INT_MIN, INT_MAX); double v = dbl("v"); x[axis] = i;
  int o = outcome([&] { m.set_elem(v, x[0], x[1], x[2]); });
  sym_check((o == 0) == sym_and(i >= 1, i <= N), "write accepted exactly inside");
  for (int a = 1; a <= R; a++) for (int b = 1; b <= C; b++) for (int c = 1; c <= S; c++) {
    int others = (axis == 0 || a == x[0]) && (axis == 1 || b == x[1]) && (axis == 2 || c == x[2]);
    if (others) sym_check_eqd(m.get_elem(a, b, c), o == 0 && (axis == 0 ? a : axis == 1 ? b : c) == i ? v : val(a, b, c), "only the addressed element changes");
    else sym_check_eqd(m.get_elem(a, b, c), val(a, b, c), "only the addressed element changes");
  }
  int o2 = outcome([&] { sym_check_eqd(m.get_elem(x[0], x[1], x[2]), v, "element read back"); });
  sym_check((o2 == 0) == (o == 0), "read accepted exactly inside");
  sym_obs_int("o", o); sym_reach("large");
}

// a matrix left without rows, columns or shelves holds no element: every access is refused
extern "C" void t_empty() {
  int R = pick("R", 2), C = pick("C", 2), S = pick("S", 2), how = sym_choose("how", 4);
  Matrix full(R, C, S), none(0); Matrix& m = how == 3 ? none : full;
  if (how == 0) m.set_rows(0);
  if (how == 1) m.set_cols(0);
  if (how == 2) m.set_shel(0);
  int i = sym_int("i", INT_MIN, INT_MAX), j = sym_int("j", INT_MIN, INT_MAX), k = sym_int("k", INT_MIN, INT_MAX); double v = dbl("v");
  sym_check(m.total_elem() == 0, "empty matrix");
  sym_check(outcome([&] { m.set_elem(v); }) != 0 && outcome([&] { m.get_elem(); }) != 0, "no element");
  sym_check(outcome([&] { m.set_elem(v, i); }) != 0 && outcome([&] { m.get_elem(i); }) != 0, "no element by row");
  sym_check(outcome([&] { m.set_elem(v, i, j); }) != 0 && outcome([&] { m.get_elem(i, j); }) != 0, "no element by row and column");
  sym_check(outcome([&] { m.set_elem(v, i, j, k); }) != 0 && outcome([&] { m.get_elem(i, j, k); }) != 0, "no element by row, column and shelf");
  std::vector<double> w; auto any = [&](const std::vector<double>& x) { for (double y : x) sym_check_eqd(y, 0, "nothing read"); sym_check(x.empty(), "nothing read"); };
  w.assign(C, v); outcome([&] { m.set_row(w, 1); }); outcome([&] { any(m.get_row(1)); });
  w.assign(R, v); outcome([&] { m.set_col(w, 1); }); outcome([&] { any(m.get_col(1)); });
  sym_obs_int("R", m.get_rows()); sym_reach("empty");
}

// large sizes along one or all axes: every element is its own, the last one is inside and the next one is not
extern "C" void t_huge() {
  static const int Z[][3] = {{1100, 3, 1}, {3, 1100, 1}, {2, 2, 600}, {70, 70, 1}, {20, 17, 9}, {1, 2500, 1}}; auto& z = Z[sym_choose("z", 6)]; int R = z[0], C = z[1], S = z[2];
  Matrix m(R, C, S); auto val = [](int a, int b, int c) { return a * 4096.0 + b + c / 1024.0; };
  for (int a = 1; a <= R; a++) for (int b = 1; b <= C; b++) for (int c = 1; c <= S; c++) m.set_elem(val(a, b, c), a, b, c);
  double v = dbl("v"), w = dbl("w"); int far = sym_choose("far", 3), x = far == 0 ? R : 1 + (R - 1) / (1 + far), y = far == 1 ? C : 1 + (C - 1) * 2 / 3, q = far == 2 ? S : 1 + S / 2 % S;
  m.set_elem(v, x, y, q); if (q == 1) m.set_elem(w, R, C); else m.set_elem(w, R, C, S);
  bool last = x == R && y == C && (q == S || q == 1);
  for (int a = 1; a <= R; a++) for (int b = 1; b <= C; b++) for (int c = 1; c <= S; c++) {
    bool isw = a == R && b == C && c == (q == 1 ? 1 : S), isv = a == x && b == y && c == q && !isw;
    sym_check_eqd(m.get_elem(a, b, c), isw ? w : isv ? v : val(a, b, c), "only the addressed element changes");
    if (c == 1 && (a == R || b == C)) { sym_check_eqd(m.get_elem(a, b), isw ? w : isv ? v : val(a, b, c), "element of the first shelf"); sym_check_eqd(*m.get_elem_ptr(a, b), isw ? w : isv ? v : val(a, b, c), "pointer to the element"); }
  }
  for (int ax = 0; ax < 3; ax++) for (int d : {1, 2, 100, 65536}) { int i[3] = {R, C, S}; i[ax] += d; sym_check(outcome([&] { m.set_elem(v, i[0], i[1], i[2]); }) != 0, "beyond the end refused"); sym_check(outcome([&] { m.get_elem(i[0], i[1], i[2]); }) != 0, "beyond the end refused"); }
  sym_check(m.get_rows() == R && m.get_cols() == C && m.get_shel() == S && m.total_elem() == R * C * S, "dimensions unchanged");
  std::vector<std::vector<double>> vv; for (int a = 1; a <= R; a++) { vv.push_back(std::vector<double>()); for (int b = 1; b <= C; b++) vv.back().push_back(m.get_elem(a, b, 1)); }
  Matrix t(vv); sym_check(t.get_rows() == R && t.get_cols() == C, "table sizes");
  for (int a = 1; a <= R; a++) for (int b = 1; b <= C; b++) sym_check_eqd(t.get_elem(a, b), vv[a - 1][b - 1], "table element");
  Matrix t1(vv[R / 2]); for (int b = 1; b <= C; b++) sym_check_eqd(t1.get_elem(b), vv[R / 2][b - 1], "column element");
  std::vector<int> iv; for (int b = 0; b < C * S; b++) iv.push_back(b * 3 - 7); iv[C / 2] = sym_int("iv", -1000000, 1000000);
  Matrix t2(iv); sym_check(t2.get_rows() == C * S, "column sizes"); for (int b = 1; b <= C * S; b++) sym_check_eqd(t2.get_elem(b), iv[b - 1], "integer element");
  sym_obs_int("last", last); sym_reach("huge");
}
