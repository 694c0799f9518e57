// C11: product, transpose, diagonal, copy, concatenation
#include "h.h"
using namespace catnip;
typedef std::vector<double> VD;
static int pick(const char* n, int mx) { return sym_choose(n, mx) + 1; }
static void same(const Matrix& m, const VD& old, const char* l) { VD v = vals(m); sym_check(v.size() == old.size(), l); for (size_t i = 0; i < v.size() && i < old.size(); i++) sym_check_eqd(v[i], old[i], l); }
static bool size(const Matrix& m, int r, int c, int s, const char* l) { bool ok = m.get_rows() == r && m.get_cols() == c && m.get_shel() == s; sym_check(ok, l); return ok; }
extern "C" void t_product() {
  int mx = sym_param("max", 3), r = pick("r", mx), k = pick("k", mx), k2 = pick("k2", mx), c = pick("c", mx);
  Matrix *a = mat("a", r, k), *b = mat("b", k2, c), *p = nullptr; VD oa = vals(*a), ob = vals(*b);
  int o = outcome([&] { p = &(*a * *b); });
  sym_check((o == 0) == (k == k2), "product exactly for fitting sizes");
  if (o == 0 && k == k2) {
    if (size(*p, r, c, 1, "size of the product")) for (int i = 1; i <= r; i++) for (int j = 1; j <= c; j++) { double s = 0; for (int q = 1; q <= k; q++) s += a->get_elem(i, q) * b->get_elem(q, j); sym_check_eqd(p->get_elem(i, j), s, "entry of the product"); }
    sym_reach("product");
  } else sym_reach("refused");
  same(*a, oa, "left operand unchanged"); same(*b, ob, "right operand unchanged");
  sym_obs_int("o", o);
}
// three dimensional matrices have no product and no transpose
extern "C" void t_shelves() {
  int s1 = pick("s1", 2), s2 = pick("s2", 2);
  Matrix *a = mat("a", 2, 2, s1), *b = mat("b", 2, 2, s2);
  int o = outcome([&] { *a * *b; }), o2 = outcome([&] { a->invert(); }), o3 = outcome([&] { Matrix v(2, 1, s1); Matrix_diag(v); });
  sym_check((o == 0) == (s1 == 1 && s2 == 1), "product only for one shelf");
  sym_check((o2 == 0) == (s1 == 1), "transpose only for one shelf");
  sym_check((o3 == 0) == (s1 == 1), "diagonal only for one shelf");
  sym_obs_int("o", o);
}
extern "C" void t_unary() {
  int mx = sym_param("max", 4), r = pick("r", mx), c = pick("c", mx);
  Matrix* a = mat("a", r, c); VD oa = vals(*a);
  Matrix t = a->invert();
  if (size(t, c, r, 1, "size of the transpose")) for (int i = 1; i <= r; i++) for (int j = 1; j <= c; j++) sym_check_eqd(t.get_elem(j, i), a->get_elem(i, j), "entry of the transpose");
  Matrix* d = nullptr;
  int o = outcome([&] { d = new Matrix(Matrix_diag(*a)); });
  sym_check((o == 0) == (r == 1 || c == 1), "diagonal only from one row or column");
  if (o == 0 && (r == 1 || c == 1)) {
    int n = r > c ? r : c;
    if (size(*d, n, n, 1, "size of the diagonal")) for (int i = 1; i <= n; i++) for (int j = 1; j <= n; j++) sym_check_eqd(d->get_elem(i, j), i == j ? oa[i - 1] : 0, "entry of the diagonal");
    sym_reach("diagonal");
  }
  same(*a, oa, "operand unchanged");
  sym_obs_int("o", o);
}
extern "C" void t_copy() {
  int r = pick("r", 3), c = pick("c", 3), s = pick("s", 2);
  Matrix* a = mat("a", r, c, s); VD oa = vals(*a);
  Matrix b = Matrix_copy(*a);
  if (size(b, r, c, s, "size of the copy")) same(b, oa, "entries of the copy");
  same(*a, oa, "operand unchanged");
  sym_obs_d("last", b.get_elem(r, c, s));
}
extern "C" void t_concat() {
  int rows = sym_choose("rows", 2), r1 = pick("r1", 3), c1 = pick("c1", 3), s1 = pick("s1", 2), r2 = pick("r2", 3), c2 = pick("c2", 3), s2 = pick("s2", 2);
  Matrix *a = mat("a", r1, c1, s1), *b = mat("b", r2, c2, s2); VD oa = vals(*a), ob = vals(*b);
  Matrix* p = nullptr;
  int o = outcome([&] { p = new Matrix(rows ? Matrix_concatenate_rows(*a, *b) : Matrix_concatenate_cols(*a, *b)); });
  bool fit = s1 == s2 && (rows ? c1 == c2 : r1 == r2);
  if (fit) {
    sym_check(o == 0, "fitting matrices joined");
    if (o == 0 && size(*p, rows ? r1 + r2 : r1, rows ? c1 : c1 + c2, s1, "size of the joined matrix"))
      for (int i = 1; i <= p->get_rows(); i++) for (int j = 1; j <= p->get_cols(); j++) for (int k = 1; k <= s1; k++)
        sym_check_eqd(p->get_elem(i, j, k), rows ? (i <= r1 ? a->get_elem(i, j, k) : b->get_elem(i - r1, j, k)) : (j <= c1 ? a->get_elem(i, j, k) : b->get_elem(i, j - c1, k)), "entry of the joined matrix");
    sym_reach("joined");
  } else {
    // no joined matrix: an error, or nothing but the empty default matrix
    bool none = o != 0 || (p->get_rows() == 1 && p->get_cols() == 1 && p->get_shel() == 1);
    sym_check(none, "matrices that do not fit are not joined");
    if (o == 0 && none) sym_check_eqd(p->get_elem(1, 1), 0, "no values from matrices that do not fit");
    sym_reach("not joined");
  }
  same(*a, oa, "operand unchanged"); same(*b, ob, "operand unchanged");
  sym_obs_int("o", o);
}
// one large size
extern "C" void t_large() {
  static const int N[] = {6, 9, 16, 17, 33, 40}; int n = N[sym_choose("n", 6)], w = pick("w", 2), which = sym_choose("which", 3);
  int r = which == 0 ? n : w, k = which == 1 ? n : w, c = which == 2 ? n : w;
  Matrix *a = mat("a", r, k), *b = mat("b", k, c); Matrix& p = *a * *b;
  if (size(p, r, c, 1, "size of the product")) for (int i = 1; i <= r; i++) for (int j = 1; j <= c; j++) { double s = 0; for (int q = 1; q <= k; q++) s += a->get_elem(i, q) * b->get_elem(q, j); sym_check_eqd(p.get_elem(i, j), s, "entry of the product"); }
  Matrix t = a->invert();
  if (size(t, k, r, 1, "size of the transpose")) for (int i = 1; i <= r; i++) for (int j = 1; j <= k; j++) sym_check_eqd(t.get_elem(j, i), a->get_elem(i, j), "entry of the transpose");
  Matrix y = Matrix_copy(*a); if (size(y, r, k, 1, "size of the copy")) same(y, vals(*a), "entries of the copy");
  if (r == 1 || k == 1) { Matrix d = Matrix_diag(*a); int m = r > k ? r : k; VD v = vals(*a); if (size(d, m, m, 1, "size of the diagonal")) for (int i = 1; i <= m; i++) for (int j = 1; j <= m; j++) sym_check_eqd(d.get_elem(i, j), i == j ? v[i - 1] : 0, "entry of the diagonal"); }
  Matrix e = Matrix_concatenate_cols(*a, t.get_rows() == r ? t : *a), f = Matrix_concatenate_rows(*a, *a);
  if (t.get_rows() != r && size(e, r, 2 * k, 1, "size of the joined matrix")) for (int i = 1; i <= r; i++) for (int j = 1; j <= 2 * k; j++) sym_check_eqd(e.get_elem(i, j), a->get_elem(i, (j - 1) % k + 1), "entry of the joined matrix");
  if (size(f, 2 * r, k, 1, "size of the joined matrix")) for (int i = 1; i <= 2 * r; i++) for (int j = 1; j <= k; j++) sym_check_eqd(f.get_elem(i, j), a->get_elem((i - 1) % r + 1, j), "entry of the joined matrix");
  sym_obs_d("last", p.get_elem(r, c));
}
// one matrix as both operands
extern "C" void t_self() {
  int n = pick("n", 3), c = pick("c", 2), s = pick("s", 2); Matrix* a = mat("a", n, n, 1); VD oa = vals(*a);
  Matrix* p = nullptr; int o = outcome([&] { p = &(*a * *a); }); sym_check(o == 0, "square of a matrix");
  if (o == 0 && size(*p, n, n, 1, "size of the square")) for (int i = 1; i <= n; i++) for (int j = 1; j <= n; j++) { double t = 0; for (int q = 0; q < n; q++) t += oa[(i - 1) * n + q] * oa[q * n + j - 1]; sym_check_eqd(p->get_elem(i, j), t, "entry of the square"); }
  same(*a, oa, "operand unchanged");
  Matrix* b = mat("b", n, c, s); VD ob = vals(*b); Matrix* r = nullptr; Matrix* q = nullptr;
  o = outcome([&] { r = new Matrix(Matrix_concatenate_rows(*b, *b)); q = new Matrix(Matrix_concatenate_cols(*b, *b)); }); sym_check(o == 0, "a matrix joined with itself");
  if (o == 0 && size(*r, 2 * n, c, s, "size of the joined rows") && size(*q, n, 2 * c, s, "size of the joined columns"))
    for (int i = 1; i <= n; i++) for (int j = 1; j <= c; j++) for (int k = 1; k <= s; k++) { double v = ob[((i - 1) * c + j - 1) * s + k - 1];
      sym_check_eqd(r->get_elem(i, j, k), v, "joined rows"); sym_check_eqd(r->get_elem(i + n, j, k), v, "joined rows"); sym_check_eqd(q->get_elem(i, j, k), v, "joined columns"); sym_check_eqd(q->get_elem(i, j + c, k), v, "joined columns"); }
  same(*b, ob, "operand unchanged"); sym_reach("itself");
}

// sizes of some hundreds: given entries and one symbolic row and column
extern "C" void t_huge() {
  static const int Z[][3] = {{2, 600, 3}, {300, 2, 3}, {3, 2, 300}, {45, 40, 43}, {1, 1200, 1}}; auto& z = Z[sym_choose("z", 5)]; int r = z[0], k = z[1], c = z[2];
  Matrix *a = new Matrix(r, k), *b = new Matrix(k, c); for (int i = 1; i <= r; i++) for (int j = 1; j <= k; j++) a->set_elem((i * 7 + j * 3) % 11 - 5, i, j); for (int i = 1; i <= k; i++) for (int j = 1; j <= c; j++) b->set_elem((i * 5 + j * 2) % 13 - 6, i, j);
  double x = dbl("x"), y = dbl("y"); a->set_elem(x, r, k - 1); b->set_elem(y, k, c); VD oa = vals(*a), ob = vals(*b);
  int which = sym_choose("which", 2);
  if (which == 0) {
    Matrix& p = *a * *b; if (size(p, r, c, 1, "size of the product")) for (int i = 1; i <= r; i++) for (int j = 1; j <= c; j++) { double s = 0; for (int q = 1; q <= k; q++) s += oa[(i - 1) * k + q - 1] * ob[(q - 1) * c + j - 1]; sym_check_eqd(p.get_elem(i, j), s, "entry of the product"); }
  } else {
    Matrix t = a->invert(); if (size(t, k, r, 1, "size of the transpose")) for (int i = 1; i <= r; i++) for (int j = 1; j <= k; j++) sym_check_eqd(t.get_elem(j, i), oa[(i - 1) * k + j - 1], "entry of the transpose");
    Matrix d = Matrix_copy(*a); if (size(d, r, k, 1, "size of the copy")) same(d, oa, "entries of the copy");
    Matrix n = Matrix_concatenate_cols(t, b->get_rows() == k ? *b : t); if (size(n, k, r + c, 1, "size of the joined matrix")) for (int i = 1; i <= k; i++) for (int j = 1; j <= r + c; j++) sym_check_eqd(n.get_elem(i, j), j <= r ? oa[(j - 1) * k + i - 1] : ob[(i - 1) * c + j - r - 1], "entry of the joined matrix");
    Matrix w = Matrix_concatenate_rows(*a, d); if (size(w, 2 * r, k, 1, "size of the joined matrix")) for (int i = 1; i <= 2 * r; i++) for (int j = 1; j <= k; j++) sym_check_eqd(w.get_elem(i, j), oa[((i - 1) % r) * k + j - 1], "entry of the joined matrix");
    int l = 100; Matrix v(l, 1), v1(1, l); for (int i = 1; i <= l; i++) { v.set_elem(i == l - 1 ? x : i, i); v1.set_elem(i == l - 1 ? x : i, 1, i); }
    Matrix g = Matrix_diag(v), g1 = Matrix_diag(v1); if (size(g, l, l, 1, "size of the diagonal") && size(g1, l, l, 1, "size of the diagonal")) for (int i = 1; i <= l; i++) for (int j = 1; j <= l; j++) { sym_check_eqd(g.get_elem(i, j), i != j ? 0 : i == l - 1 ? x : i, "entry of the diagonal"); sym_check_eqd(g1.get_elem(i, j), i != j ? 0 : i == l - 1 ? x : i, "entry of the diagonal"); }
  }
  same(*a, oa, "operand unchanged"); same(*b, ob, "operand unchanged"); sym_obs_int("w", which); sym_reach("huge");
}
