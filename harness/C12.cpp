// C12: matrices are independent values
#include "h.h"
using namespace catnip;
typedef std::vector<double> VD;
static int pick(const char* n, int mx) { return sym_choose(n, mx) + 1; }
static void same(const Matrix& m, const VD& old, int r, int c, int s, const char* l) {
  bool ok = m.get_rows() == r && m.get_cols() == c && m.get_shel() == s; sym_check(ok, l); if (!ok) return;
  VD v = vals(m); for (size_t i = 0; i < v.size() && i < old.size(); i++) sym_check_eqd(v[i], old[i], l);
}
static double by_value(Matrix m, double v, int r, int c, int s) { m.set_elem(v, r, c, s); return m.get_elem(r, c, s); }
static Matrix returned(const Matrix& m) { Matrix x(m); return x; }
extern "C" void t_copy() {
  int r = pick("r", sym_param("max", 3)), c = pick("c", sym_param("max", 3)), s = pick("s", sym_param("maxs", 2)), how = sym_choose("how", 4), side = sym_choose("side", 2);
  Matrix* a = mat("a", r, c, s); VD oa = vals(*a);
  int i = sym_int("i", 1, r), j = sym_int("j", 1, c), k = sym_int("k", 1, s); double v = dbl("v");
  Matrix* b;
  if (how == 0) b = new Matrix(*a);
  else if (how == 1) { b = new Matrix(pick("or", 2), pick("oc", 2), pick("os", 2)); *b = *a; }
  else if (how == 2) { b = new Matrix(returned(*a)); }
  else { b = new Matrix(); *b = Matrix(*a); }
  same(*b, oa, r, c, s, "copy equals the original");
  same(*a, oa, r, c, s, "original unchanged by copying");
  Matrix *x = side ? a : b, *y = side ? b : a;
  x->set_elem(v, i, j, k);
  same(*y, oa, r, c, s, "change of one does not show in the other");
  sym_check_eqd(x->get_elem(i, j, k), v, "changed value");
  delete x;
  same(*y, oa, r, c, s, "destruction of one leaves the other");
  sym_check_eqd(by_value(*y, v, i, j, k), v, "value passed by value");
  same(*y, oa, r, c, s, "passing by value leaves the original");
  delete y;
  sym_obs_int("how", how); sym_reach("independent");
}
// self assignment, chains, and resizing a copy
extern "C" void t_assign() {
  int r = pick("r", 3), c = pick("c", 2), s = pick("s", 2), w = sym_choose("w", 5);
  Matrix* a = mat("a", r, c, s); VD oa = vals(*a);
  Matrix b(2, 2, 2), d;
  Matrix& ra = *a;
  if (w == 0) { *a = ra; same(*a, oa, r, c, s, "self assignment keeps the value"); }
  else if (w == 1) { d = b = *a; same(b, oa, r, c, s, "chained assignment"); same(d, oa, r, c, s, "chained assignment"); b.set_elem(dbl("v"), 1, 1, 1); same(d, oa, r, c, s, "chained copies are independent"); same(*a, oa, r, c, s, "chained copies are independent"); }
  else if (w == 2) { b = *a; b.set_rows(r + 1); b.set_cols(c + 1); same(*a, oa, r, c, s, "resizing a copy leaves the original"); b = *a; same(b, oa, r, c, s, "assignment after resizing"); }
  else if (w == 3) { std::vector<Matrix> v; for (int i = 0; i < 3; i++) v.push_back(*a); v[0].set_elem(dbl("v"), r, c, s); same(v[1], oa, r, c, s, "copies in a vector are independent"); v.erase(v.begin()); same(v[0], oa, r, c, s, "copies in a vector survive"); same(v[1], oa, r, c, s, "copies in a vector survive"); same(*a, oa, r, c, s, "original survives"); }
  else { b = *a; *a = Matrix(1, 1, 1); same(b, oa, r, c, s, "replacing the original leaves the copy"); *a = b; same(*a, oa, r, c, s, "assigned back"); }
  sym_obs_int("w", w); sym_reach("assigned");
}

// larger matrices
extern "C" void t_big() {
  int w = sym_choose("w", 3), n = sym_param("n", 40), r = w == 0 ? n : w == 1 ? 2 : 6, c = w == 1 ? n : w == 0 ? 3 : 6, s = w == 2 ? 5 : 1, how = sym_choose("how", 2), side = sym_choose("side", 2);
  Matrix* a = new Matrix(r, c, s); for (int i = 1; i <= r; i++) for (int j = 1; j <= c; j++) for (int k = 1; k <= s; k++) a->set_elem(i * 100 + j + k * 0.25, i, j, k);
  a->set_elem(dbl("x"), r, c - 1, s); VD oa = vals(*a);
  Matrix* b = how ? new Matrix(*a) : new Matrix(n, 4, 2); if (!how) *b = *a;
  same(*b, oa, r, c, s, "copy equals the original");
  Matrix *x = side ? a : b, *y = side ? b : a;
  for (int i = 1; i <= r; i++) for (int j = 1; j <= c; j++) for (int k = 1; k <= s; k++) x->set_elem(-1, i, j, k);
  same(*y, oa, r, c, s, "change of one does not show in the other");
  delete x; same(*y, oa, r, c, s, "destruction of one leaves the other"); delete y;
  sym_reach("large");
}

// results of operations belong to nobody else: not to the operands, not to each other, and they are made anew every time
extern "C" void t_results() {
  int op = sym_choose("op", 9), n = 2; Matrix *a = mat("a", n, n), *b = mat("b", n, n); double x = dbl("x"), y = dbl("y");
  auto make = [&](const Matrix& u, const Matrix& v) -> Matrix* {
    switch (op) { case 0: return &(u * v); case 1: return new Matrix(u.invert()); case 2: return new Matrix(Matrix_copy(u)); case 3: return new Matrix(Matrix_concatenate_rows(u, v)); case 4: return new Matrix(Matrix_concatenate_cols(u, v));
      case 5: return new Matrix(u.getRow(1)); case 6: return new Matrix(u.getCol(2)); case 7: return new Matrix(Matrix_diag(u.getRow(2))); default: return new Matrix(u.get_row(1)); } };
  auto expect = [&](const VD& u, const VD& v) -> VD {
    switch (op) { case 0: { VD r; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) r.push_back(u[2 * i] * v[j] + u[2 * i + 1] * v[2 + j]); return r; } case 1: return {u[0], u[2], u[1], u[3]}; case 2: return u; case 3: return {u[0], u[1], u[2], u[3], v[0], v[1], v[2], v[3]}; case 4: return {u[0], u[1], v[0], v[1], u[2], u[3], v[2], v[3]};
      case 5: return {u[0], u[1]}; case 6: return {u[1], u[3]}; case 7: return {u[2], 0, 0, u[3]}; default: return {u[0], u[1]}; } };
  auto is = [&](Matrix* m, const VD& v, const char* l) { VD w = vals(*m); sym_check(w.size() == v.size(), l); for (size_t i = 0; i < w.size() && i < v.size(); i++) sym_check_eqd(w[i], v[i], l); };
  VD va = vals(*a), vb = vals(*b); Matrix* p = make(*a, *b); VD vp = expect(va, vb); is(p, vp, "result");
  Matrix* q = make(*b, *a); is(p, vp, "a later result leaves the earlier one"); is(q, expect(vb, va), "result of the other order");
  Matrix* s = make(*a, *a); is(s, expect(va, va), "result with itself"); is(q, expect(vb, va), "a later result leaves the earlier one");
  p->set_elem(x, 1, 1); is(a, va, "changing the result leaves the operand"); is(b, vb, "changing the result leaves the operand");
  VD vq = expect(vb, va); is(q, vq, "changing one result leaves the other");
  for (int i = 1; i <= 2; i++) { a->set_elem(y, i, i); va[(i - 1) * 3] = y; } is(q, vq, "changing the operand leaves the result");
  Matrix* z = make(*a, *b); is(z, expect(va, vb), "made anew from changed operands");
  delete z; is(a, va, "destroying the result leaves the operand"); delete a; delete b; is(q, vq, "destroying the operands leaves the result"); delete q;
  sym_obs_int("op", op); sym_reach("results");
}

// thousands of elements
extern "C" void t_huge() {
  static const int Z[][3] = {{1500, 3, 1}, {3, 1500, 1}, {72, 72, 1}, {20, 16, 15}, {2, 2, 1100}}; auto& z = Z[sym_choose("z", 5)]; int r = z[0], c = z[1], s = z[2], how = sym_choose("how", 3);
  Matrix* a = new Matrix(r, c, s); for (int i = 1; i <= r; i++) for (int j = 1; j <= c; j++) for (int k = 1; k <= s; k++) a->set_elem(i * 2048.0 + j + k / 2048.0, i, j, k);
  a->set_elem(dbl("x"), r, c, s); a->set_elem(dbl("y"), (r + 1) / 2, (c + 1) / 2, s); VD oa = vals(*a);
  Matrix* b; if (how == 0) b = new Matrix(*a); else { b = new Matrix(how == 1 ? 2 : r, c, s); *b = *a; }
  same(*b, oa, r, c, s, "copy equals the original"); same(*a, oa, r, c, s, "original unchanged by copying");
  for (int i = 1; i <= r; i++) for (int j = 1; j <= c; j++) a->set_elem(-1, i, j, s);
  same(*b, oa, r, c, s, "change of one does not show in the other"); delete a; same(*b, oa, r, c, s, "destruction of one leaves the other"); delete b;
  sym_reach("huge");
}
