// C10: whole rows and columns
#include "h.h"
#include <climits>
using namespace catnip;
typedef std::vector<double> VD;
static int pick(const char* n, int mx) { return sym_choose(n, mx) + 1; }
static double el(const VD& v, int C, int i, int j) { return v[(i - 1) * C + j - 1]; }
static void unchanged(const Matrix& m, const VD& old, const char* l) { VD v = vals(m); sym_check(v.size() == old.size(), l); for (size_t i = 0; i < v.size() && i < old.size(); i++) sym_check_eqd(v[i], old[i], l); }
// read and write one row or column
extern "C" void t_rw() {
  int R = pick("R", sym_param("max", 3)), C = pick("C", sym_param("max", 3)), row = sym_choose("row", 2), n = sym_choose("len", 5), N = row ? R : C, W = row ? C : R;
  Matrix* m = mat("m", R, C); VD old = vals(*m);
  int i = sym_int("i", INT_MIN, INT_MAX);
  int in = sym_and(i >= 1, i <= N);
  VD v; for (int q = 0; q < n; q++) v.push_back(dbl(nm("v", q)));
  VD got;
  int og = outcome([&] { got = row ? m->get_row(i) : m->get_col(i); });
  sym_check((og == 0) == in, "read accepted exactly inside");
  if (og == 0) { sym_check((int)got.size() == W, "all entries"); for (int q = 0; q < W; q++) sym_check_eqd(got[q], row ? el(old, C, i, q + 1) : el(old, C, q + 1, i), "entries in order"); sym_reach("read"); }
  unchanged(*m, old, "reading changes nothing");
  int o = outcome([&] { if (row) m->set_row(v, i); else m->set_col(v, i); });
  sym_check((o == 0) == sym_and(in, n == W), "write accepted exactly inside and with the right length");
  if (o == 0) {
    for (int a = 1; a <= R; a++) for (int b = 1; b <= C; b++) sym_check_eqd(m->get_elem(a, b), (row ? a : b) == i ? v[(row ? b : a) - 1] : el(old, C, a, b), "only the named row or column is written");
    sym_reach("written");
  } else { unchanged(*m, old, "refused write changes nothing"); sym_reach("refused"); }
  sym_obs_int("o", o);
}
// with several shelves: rows and columns of the first shelf are read and written, the other shelves stay
extern "C" void t_shelves() {
  int R = pick("R", 3), C = pick("C", 3), S = pick("S", 3), row = sym_choose("row", 2), N = row ? R : C, W = row ? C : R, i = 1 + sym_choose("i", N);
  Matrix* m = mat("m", R, C, S); VD old = vals(*m), v;
  auto at = [&](int a, int b, int k) { return old[((a - 1) * C + b - 1) * S + k - 1]; };
  VD got = row ? m->get_row(i) : m->get_col(i);
  sym_check((int)got.size() == W, "all entries"); if ((int)got.size() != W) return;
  for (int q = 0; q < W; q++) sym_check_eqd(got[q], row ? at(i, q + 1, 1) : at(q + 1, i, 1), "entries of the first shelf in order");
  for (int q = 0; q < W; q++) v.push_back(dbl(nm("v", q)));
  if (row) m->set_row(v, i); else m->set_col(v, i);
  for (int a = 1; a <= R; a++) for (int b = 1; b <= C; b++) for (int k = 1; k <= S; k++)
    sym_check_eqd(m->get_elem(a, b, k), (row ? a : b) == i && k == 1 ? v[(row ? b : a) - 1] : at(a, b, k), "only the named row or column of the first shelf is written");
  sym_obs_int("s", S);
}
// swap and move
extern "C" void t_swapmove() {
  int L = sym_param("long", 0), row = sym_choose("row", 2), move = sym_choose("move", 2);
  int R = L ? (row ? L : 1) : pick("R", sym_param("max", 3)), C = L ? (row ? 1 : L) : pick("C", sym_param("max", 3)), N = row ? R : C;
  Matrix* m = mat("m", R, C); VD old = vals(*m);
  int given = sym_param("given", 0), f = given ? 1 + sym_choose("f", N) : sym_int("f", -2, N + 2), t = given ? 1 + sym_choose("t", N) : sym_int("t", -2, N + 2);
  int o = outcome([&] { if (move) { if (row) m->move_row(f, t); else m->move_col(f, t); } else { if (row) m->swap_row(f, t); else m->swap_col(f, t); } });
  int in = sym_and(sym_and(f >= 1, f <= N), sym_and(t >= 1, t <= N));
  if (in) {
    sym_check(o == 0, "valid numbers accepted");
    for (int a = 1; a <= R; a++) for (int b = 1; b <= C; b++) {
      int x = row ? a : b, src;
      if (move) src = x == t ? f : f < t && x >= f && x < t ? x + 1 : f > t && x > t && x <= f ? x - 1 : x;
      else src = x == f ? t : x == t ? f : x;
      sym_check_eqd(m->get_elem(a, b), row ? el(old, C, src, b) : el(old, C, a, src), move ? "moved row or column" : "swapped rows or columns");
    }
    sym_reach(move ? "moved" : "swapped");
  } else if (f != t) {
    sym_check(o != 0, "row or column outside of the matrix refused");
    sym_reach("outside");
  }
  if (!in && !move) unchanged(*m, old, "refused swap changes nothing");
  sym_check(m->get_rows() == R && m->get_cols() == C && m->get_shel() == 1, "sizes unchanged");
  sym_obs_int("o", o);
}
// any number outside
extern "C" void t_far() {
  Matrix* m = mat("m", 2, 2); VD old = vals(*m);
  int op = sym_choose("op", 4), f = sym_int("f", INT_MIN, INT_MAX), g = 1 + sym_choose("g", 2);
  if (f >= 1 && f <= 2) { sym_obs_int("o", -1); return; }
  int o = outcome([&] { if (op == 0) m->swap_row(f, g); else if (op == 1) m->swap_row(g, f); else if (op == 2) m->swap_col(f, g); else m->swap_col(g, f); });
  sym_check(o != 0, "row or column outside of the matrix refused");
  unchanged(*m, old, "refused swap changes nothing");
  sym_obs_int("o", o);
}
// extraction of one row or column as a matrix, with shelves
extern "C" void t_extract() {
  int R = pick("R", 3), C = pick("C", 3), S = pick("S", 2), row = sym_choose("row", 2), N = row ? R : C, W = row ? C : R;
  Matrix* m = mat("m", R, C, S); VD old = vals(*m);
  int i = sym_int("i", INT_MIN, INT_MAX);
  Matrix* x = nullptr;
  int o = outcome([&] { x = new Matrix(row ? m->getRow(i) : m->getCol(i)); });
  sym_check((o == 0) == sym_and(i >= 1, i <= N), "accepted exactly inside");
  if (o == 0) {
    sym_check(x->get_rows() == (row ? 1 : R) && x->get_cols() == (row ? C : 1) && x->get_shel() == S, "size of the extracted matrix");
    for (int q = 1; q <= W; q++) for (int k = 1; k <= S; k++) sym_check_eqd(row ? x->get_elem(1, q, k) : x->get_elem(q, 1, k), row ? m->get_elem(i, q, k) : m->get_elem(q, i, k), "entries in order");
    sym_reach("extracted");
  }
  unchanged(*m, old, "reading changes nothing");
  sym_obs_int("o", o);
}

// hundreds of rows or columns
extern "C" void t_huge() {
  int row = sym_choose("row", 2), wide = sym_choose("wide", 3), N = wide == 0 ? 300 : wide == 1 ? 3 : 70, W = wide == 0 ? 2 : wide == 1 ? 300 : 70, op = sym_choose("op", 4), pos = sym_choose("pos", 4), R = row ? N : W, C = row ? W : N;
  Matrix* m = new Matrix(R, C); for (int a = 1; a <= R; a++) for (int b = 1; b <= C; b++) m->set_elem(a * 512.0 + b, a, b);
  int f = pos == 0 ? 1 : pos == 1 ? (N + 1) / 2 : pos == 2 ? N - 1 : N, t = pos == 0 ? N : pos == 1 ? N - 1 : pos == 2 ? (N + 2) / 2 : 2;
  auto put = [&](int i, int q, double v) { row ? m->set_elem(v, i, q) : m->set_elem(v, q, i); };
  put(f, W, dbl("v")); put(t, (W + 1) / 2, dbl("w")); VD old = vals(*m);
  auto was = [&](int i, int q) { return row ? el(old, C, i, q) : el(old, C, q, i); }; auto is = [&](int i, int q) { return row ? m->get_elem(i, q) : m->get_elem(q, i); };
  if (op == 0) {
    VD g = row ? m->get_row(f) : m->get_col(f); sym_check((int)g.size() == W, "all entries"); for (int q = 1; q <= W && q <= (int)g.size(); q++) sym_check_eqd(g[q - 1], was(f, q), "entries in order");
    Matrix x = row ? m->getRow(t) : m->getCol(t); sym_check(x.get_rows() == (row ? 1 : R) && x.get_cols() == (row ? C : 1) && x.get_shel() == 1, "size of the extracted matrix"); for (int q = 1; q <= W; q++) sym_check_eqd(row ? x.get_elem(1, q) : x.get_elem(q, 1), was(t, q), "entries in order");
    VD v; for (int q = 0; q < W; q++) v.push_back(q * 0.5 - 9000); v[W - 1] = dbl("n"); int o = outcome([&] { row ? m->set_row(v, t) : m->set_col(v, t); }); sym_check(o == 0, "write accepted exactly inside and with the right length");
    for (int i = 1; i <= N; i++) for (int q = 1; q <= W; q++) sym_check_eqd(is(i, q), i == t ? v[q - 1] : was(i, q), "only the named row or column is written");
    v.push_back(1); old = vals(*m); sym_check(outcome([&] { row ? m->set_row(v, f) : m->set_col(v, f); }) != 0 && outcome([&] { v.resize(W); row ? m->set_row(v, N + 1) : m->set_col(v, N + 1); }) != 0, "write accepted exactly inside and with the right length"); unchanged(*m, old, "refused write changes nothing");
  } else if (op == 1) {
    int o = outcome([&] { row ? m->swap_row(f, t) : m->swap_col(f, t); }); sym_check(o == 0, "valid numbers accepted");
    for (int i = 1; i <= N; i++) for (int q = 1; q <= W; q++) sym_check_eqd(is(i, q), was(i == f ? t : i == t ? f : i, q), "swapped rows or columns");
  } else {
    if (op == 3) std::swap(f, t); int o = outcome([&] { row ? m->move_row(f, t) : m->move_col(f, t); }); sym_check(o == 0, "valid numbers accepted");
    for (int i = 1; i <= N; i++) for (int q = 1; q <= W; q++) sym_check_eqd(is(i, q), was(i == t ? f : f < t && i >= f && i < t ? i + 1 : f > t && i > t && i <= f ? i - 1 : i, q), "moved row or column");
  }
  sym_check(m->get_rows() == R && m->get_cols() == C && m->get_shel() == 1, "sizes unchanged"); sym_obs_int("op", op); sym_reach("huge");
}
