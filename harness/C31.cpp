// C31: printing
#include "h.h"
#include <sstream>
using namespace catnip;
static int pick(const char* n, int mx) { return sym_choose(n, mx) + 1; }
// the printed text as words; printed symbolic numbers stay whole
static std::vector<std::string> words(const std::string& s) { std::vector<std::string> w; std::istringstream i(s); std::string t; while (i >> t) w.push_back(t); return w; }
static std::vector<std::string> lines(const std::string& s) {
  std::vector<std::string> r(1);
  for (size_t i = 0; i < s.size();) { if (s[i] == 1) { r.back() += s.substr(i, 11); i += 11; } else { if (s[i] == '\n') r.push_back(""); else r.back() += s[i]; i++; } }
  return r;
}
extern "C" double symx_unfmt(double) __attribute__((weak));
static void shows(const std::string& w, double v) { char* e = nullptr; double x = strtod(w.c_str(), &e); sym_check(e == w.c_str() + w.size(), "a number"); if (sym_symbolic()) { sym_check_eqd(symx_unfmt(x), v, "element in its place"); return; } sym_check(x >= v - 2e-5 * (v < 0 ? -v : v) && x <= v + 2e-5 * (v < 0 ? -v : v), "element in its place"); }
extern "C" void t_print() {
  int mx = sym_param("max", 3), r = pick("r", mx), c = pick("c", mx), s = pick("s", sym_param("maxs", 2));
  Matrix* m = mat("m", r, c, s); std::vector<double> old = vals(*m);
  std::ostringstream o; o << *m;
  std::vector<std::string> L = lines(o.str()); std::vector<std::vector<std::string>> W;
  for (auto& l : L) { auto w = words(l); if (!w.empty()) W.push_back(w); }
  // sizes
  auto has = [&](const char* k, int v) { for (auto& w : W) if (w.size() == 2 && w[0] == k && w[1] == std::to_string(v)) return true; return false; };
  sym_check(has("rows", r), "number of rows"); sym_check(has("cols", c), "number of columns"); sym_check(has("shel", s), "number of shelves");
  // rows, shelf by shelf
  int n = 0;
  for (auto& w : W) if (w[0] == "Row") {
    int k = n / r, i = n % r; n++;
    if (k >= s) continue;
    sym_check((int)w.size() == c + 2 && w[1] == std::to_string(i + 1), "one line per row with all columns");
    if ((int)w.size() == c + 2) for (int j = 0; j < c; j++) shows(w[j + 2], old[(i * c + j) * s + k]);
  }
  sym_check(n == r * s, "every row of every shelf printed");
  std::vector<double> now = vals(*m);
  sym_check(now.size() == old.size() && m->get_rows() == r, "printing changes nothing");
  for (size_t i = 0; i < now.size(); i++) sym_check_eqd(now[i], old[i], "printing changes nothing");
  sym_obs_int("n", n); sym_reach("printed");
}

// long matrices: given elements and a symbolic one far down or far right
extern "C" void t_long() {
  int n = sym_param("n", 120), tall = sym_choose("tall", 2), r = tall ? n : 2, c = tall ? 2 : n; double v = dbl("v");
  Matrix m(r, c); std::vector<double> old; for (int i = 1; i <= r; i++) for (int j = 1; j <= c; j++) { double x = i * 0.25 + j * 2; if (i == r - (tall ? 5 : 0) && j == c - (tall ? 0 : 5)) x = v; m.set_elem(x, i, j); old.push_back(x); }
  std::ostringstream o; o << m; std::vector<std::string> L = lines(o.str()); int k = 0;
  for (auto& l : L) { auto w = words(l); if (w.empty() || w[0] != "Row") continue; if (k >= r) { k++; continue; }
    sym_check((int)w.size() == c + 2 && w[1] == std::to_string(k + 1), "one line per row with all columns");
    if ((int)w.size() == c + 2) for (int j = 0; j < c; j++) { double x = old[k * c + j]; if (k != r - 1 - (tall ? 5 : 0) || j != c - 1 - (tall ? 0 : 5)) { char* e; sym_check(strtod(w[j + 2].c_str(), &e) == x && !*e, "element in its place"); } else shows(w[j + 2], x); }
    k++; }
  sym_check(k == r, "every row printed"); sym_reach("long");
}

// many shelves, and many rows and columns at once
extern "C" void t_huge() {
  static const int Z[][3] = {{2, 2, 14}, {35, 33, 2}, {1, 1, 101}, {400, 1, 1}, {1, 400, 1}, {11, 3, 5}}; auto& z = Z[sym_choose("z", 6)]; int r = z[0], c = z[1], s = z[2];
  Matrix m(r, c, s); for (int i = 1; i <= r; i++) for (int j = 1; j <= c; j++) for (int k = 1; k <= s; k++) m.set_elem(i + j * 0.25 + k * 400, i, j, k); double v = dbl("v"); m.set_elem(v, r, c, s); std::vector<double> old = vals(m);
  std::ostringstream o; o << m; int n = 0, shelves = 0; bool rows = false, cols = false, shel = false;
  for (auto& l : lines(o.str())) { auto w = words(l); if (w.size() == 2) { rows |= w[0] == "rows" && w[1] == std::to_string(r); cols |= w[0] == "cols" && w[1] == std::to_string(c); shel |= w[0] == "shel" && w[1] == std::to_string(s); if (w[0] == "Shelf") { shelves++; sym_check(w[1] == std::to_string(shelves), "shelves in order"); } }
    if (w.empty() || w[0] != "Row") continue; int k = n / r, i = n % r; n++; if (k >= s) continue;
    sym_check((int)w.size() == c + 2 && w[1] == std::to_string(i + 1), "one line per row with all columns"); if ((int)w.size() != c + 2) continue;
    for (int j = 0; j < c; j++) { double x = old[(i * c + j) * s + k]; if (i == r - 1 && j == c - 1 && k == s - 1) shows(w[j + 2], x); else { char* e; double g = strtod(w[j + 2].c_str(), &e), d = g - x; sym_check(!*e && d <= 2e-5 * x && d >= -2e-5 * x, "element in its place"); } } }
  sym_check(rows && cols && shel, "sizes"); sym_check(n == r * s, "every row of every shelf printed"); sym_obs_int("n", n); sym_reach("huge");
}
