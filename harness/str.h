// Symbolic texts and comparisons that do not split the path.
#pragma once
#include "h.h"
#include "string_support.hpp"
using namespace std;
// text of lo..hi characters (length by case split), every character from a..b
inline string text(const char* n, int lo, int hi, int a, int b) {
  int L = lo + (hi > lo ? sym_choose((string(n) + "_len").c_str(), hi - lo + 1) : 0);
  string s;
  for (int i = 0; i < L; i++) s += sym_char(nm(n, i).c_str(), a, b);
  return s;
}
// a long text: given characters, symbolic ones near the start, in the middle and at the end
inline string longText(const char* n, int len, int a, int b, const char* fill = "seg_ment7") {
  string s; int f = 0; while (fill[f]) f++;
  for (int i = 0; i < len; i++) s += i == 1 || i == len / 2 || i == len - 1 ? sym_char(nm(n, i).c_str(), a, b) : fill[i % f];
  return s;
}
inline int same(const string& a, const string& b) {
  if (a.size() != b.size()) return 0;
  int r = 1;
  for (size_t i = 0; i < a.size(); i++) r = sym_and(r, a[i] == b[i]);
  return r;
}
inline string cut(const string& s, size_t b, size_t e) { string r; for (size_t i = b; i < e; i++) r += s[i]; return r; }
// first / last position of p in s, -1 when there is none
inline int firstAt(const string& s, const string& p) {
  for (size_t i = 0; i + p.size() <= s.size(); i++) if (same(cut(s, i, i + p.size()), p)) return (int)i;
  return -1;
}
inline int lastAt(const string& s, const string& p) {
  for (int i = (int)s.size() - (int)p.size(); i >= 0; i--) if (same(cut(s, i, i + p.size()), p)) return i;
  return -1;
}
inline int ws(char c) { return sym_or(c == ' ', sym_and(c >= '\t', c <= '\r')); }
inline void obs(const char* l, const string& s) { sym_obs_int((string(l) + " length").c_str(), (int)s.size()); for (size_t i = 0; i < s.size(); i++) sym_obs_int(nm(l, i).c_str(), s[i]); }
