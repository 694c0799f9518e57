// C26: path and text helpers
#include "str.h"
using namespace catnip;
// paths: . / 0 1 2
extern "C" void t_path() {
  string s = text("s", 0, sym_param("max", 6), '.', '1');
  int k = lastAt(s, "/");
  string f = lastStringInPath(s), d = getPath(s);
  sym_check(same(f, cut(s, k + 1, s.size())), "last part of the path");
  sym_check(same(d, cut(s, 0, k + 1)), "directory of the path");
  sym_check(same(d + f, s), "directory and name are the path");
  obs("f", f); sym_reach("path");
}
extern "C" void t_after() {
  string s = text("s", 0, sym_param("max", 5), 'a', 'c'), o = text("o", 1, 2, 'a', 'c');
  int i = firstAt(s, o), j = lastAt(s, o); size_t n = o.size();
  string b = grabStrBeforeFirstOccurance(s, o), e = grabStrAfterFirstOccurance(s, o);
  string lb = grabStrBeforeLastOccurance(s, o), le = grabStrAfterLastOccurance(s, o);
  string lbi = grabStrBeforeLastOccuranceInclusive(s, o), lei = grabStrAfterLastOccuranceInclusive(s, o);
  sym_check(foundSubStrInStr(s, o) == (i >= 0), "found");
  if (i < 0) {
    sym_check(same(b, s), "before first: whole text"); sym_check(e.empty(), "after first: nothing");
    sym_check(same(lb, s), "before last: whole text"); sym_check(le.empty(), "after last: nothing");
    sym_check(same(lbi, s), "before last with it: whole text"); sym_check(lei.empty(), "after last with it: nothing");
    sym_reach("not found");
  } else {
    sym_check(same(b, cut(s, 0, i)), "before first"); sym_check(same(e, cut(s, i + n, s.size())), "after first");
    sym_check(same(lb, cut(s, 0, j)), "before last"); sym_check(same(le, cut(s, j + n, s.size())), "after last");
    sym_check(same(lbi, cut(s, 0, j + n)), "before last with it"); sym_check(same(lei, cut(s, j, s.size())), "after last with it");
    sym_reach("found");
  }
  obs("b", b); obs("le", le);
}
extern "C" void t_trim() {
  string s = text("s", 0, sym_param("max", 4), sym_param("lo", 2), sym_param("hi", 127));
  size_t b = 0, e = s.size();
  while (b < e && ws(s[b])) b++;
  size_t b0 = b;
  while (e > b && ws(s[e - 1])) e--;
  string t = s; trim(t);
  sym_check(same(t, cut(s, b, e)), "trim");
  sym_check(same(trimmed(s), cut(s, b, e)), "trimmed copy");
  sym_check(same(ltrimmed(s), cut(s, b0, s.size())), "trimmed start");
  sym_check(same(rtrimmed(s), cut(s, 0, b == s.size() ? 0 : e)), "trimmed end");
  obs("t", t); sym_reach("trimmed");
}
extern "C" void t_words() {
  string s = text("s", 0, sym_param("max", 5), sym_param("lo", 2), sym_param("hi", 127));
  vector<string> w, v = splitSt(s);
  string cur;
  for (size_t i = 0; i <= s.size(); i++) {
    if (i == s.size() || ws(s[i])) { if (!cur.empty()) w.push_back(cur); cur = ""; }
    else cur += s[i];
  }
  sym_check(v.size() == w.size(), "number of words");
  for (size_t i = 0; i < v.size() && i < w.size(); i++) sym_check(same(v[i], w[i]), "words in order");
  sym_obs_int("n", (int)v.size()); sym_reach("words");
}
extern "C" void t_cut() {
  string s = text("s", 0, sym_param("max", 5), 2, 127);
  int n = sym_choose("n", (int)s.size() + 1); size_t L = s.size();
  sym_check(same(lastN(s, n), cut(s, L - n, L)), "last n");
  sym_check(same(firstN(s, n), cut(s, 0, n)), "first n");
  sym_check(same(cut_end(s, n), cut(s, 0, L - n)), "all but the last n");
  sym_check(same(cut_beg(s, n), cut(s, n, L)), "all but the first n");
  sym_check(same(firstN(s, (int)L + n), s), "no more than there is");
  obs("l", lastN(s, n)); sym_reach("cut");
}
extern "C" void t_letters() {
  string s = text("s", 0, sym_param("max", 4), -128, 127);
  int all = !s.empty();
  for (char c : s) all = sym_and(all, sym_or(sym_and(c >= 'a', c <= 'z'), sym_and(c >= 'A', c <= 'Z')));
  bool r = isAlphabetical(s);
  sym_check(r == all, "only letters"); sym_obs_int("r", r); sym_reach("letters");
}
// long texts with few free characters
extern "C" void t_long() {
  static const int LEN[] = {20, 64, 129, 300}; int n = LEN[sym_choose("len", 4)]; string s = longText("s", n, '.', '0', "abcab/xab.c");
  int k = lastAt(s, "/"); sym_check(same(lastStringInPath(s), cut(s, k + 1, n)), "last part of the path"); sym_check(same(getPath(s), cut(s, 0, k + 1)), "directory of the path");
  static const char* O[] = {"b", "ab", ".", "xab.ca", "zz"}; string o = O[sym_choose("o", 5)]; int i = firstAt(s, o), j = lastAt(s, o); size_t m = o.size();
  sym_check(foundSubStrInStr(s, o) == (i >= 0), "found");
  sym_check(same(grabStrBeforeFirstOccurance(s, o), i < 0 ? s : cut(s, 0, i)), "before first"); sym_check(same(grabStrAfterFirstOccurance(s, o), i < 0 ? "" : cut(s, i + m, n)), "after first");
  sym_check(same(grabStrBeforeLastOccurance(s, o), i < 0 ? s : cut(s, 0, j)), "before last"); sym_check(same(grabStrAfterLastOccurance(s, o), i < 0 ? "" : cut(s, j + m, n)), "after last");
  int b = sym_choose("before", 3) * 9, e = sym_choose("behind", 3) * 17; string t = string(b, ' ') + s + string(e, '\t'); sym_check(same(trimmed(t), s), "trimmed copy"); sym_check(same(ltrimmed(t), s + string(e, '\t')), "trimmed start"); sym_check(same(rtrimmed(t), string(b, ' ') + s), "trimmed end");
  vector<string> w; string x; int q = 10 + n / 4; for (int h = 0; h < q; h++) { w.push_back(h == q / 2 ? s : "w" + to_string(h)); x += string(1 + h % 3, h % 2 ? ' ' : '\t') + w[h]; } vector<string> v = splitSt(x);
  sym_check((int)v.size() == q, "number of words"); for (int h = 0; h < q && h < (int)v.size(); h++) sym_check(same(v[h], w[h]), "words in order");
  sym_obs_int("n", n); sym_reach("long texts");
}
