// C33: log messages
#include "h.h"
#include <climits>
#include "log.hpp"
using namespace catnip; using std::string; using std::to_string;
static void said(int level, const string& want) {
  if (level <= LOG_LEVEL) { sym_check(string(sym_out_text()) == want, "the message, once"); sym_reach("printed"); }
  else { sym_check(sym_out_len() == 0, "nothing printed"); sym_reach("silent"); }
}
extern "C" void t_text() {
  int level = sym_int("level", INT_MIN, INT_MAX); string s = "words of"; int n = 17;
  string at = string(__FILE__) + ":";
  switch (sym_choose("kind", 5)) {
    case 0: sym_out_clear(); LOG("Reading", level); said(level, at + to_string(__LINE__) + ": Reading\n"); break;
    case 1: sym_out_clear(); LOG("Reading " + s, level); said(level, at + to_string(__LINE__) + ": Reading words of\n"); break;
    case 2: sym_out_clear(); LOG("a" << s << n, level); said(level, at + to_string(__LINE__) + ": awords of17\n"); break;
    case 3: sym_out_clear(); LOG(n << " b " << 'c' << n + 1, level); said(level, at + to_string(__LINE__) + ": 17 b c18\n"); break;
    case 4: sym_out_clear(); LOG("", level); said(level, at + to_string(__LINE__) + ": \n"); break;
  }
  sym_obs_int("len", (int)sym_out_len());
}
extern "C" void t_sequence() {
  int a = sym_int("a", INT_MIN, INT_MAX), b = sym_int("b", INT_MIN, INT_MAX); sym_out_clear();
  int l1 = __LINE__; LOG("first" << 1, a); LOG("second", b);
  string w = string(__FILE__) + ":" + to_string(l1) + ": ", t; if (a <= LOG_LEVEL) t += w + "first1\n"; if (b <= LOG_LEVEL) t += w + "second\n";
  sym_check(string(sym_out_text()) == t, "the messages in order"); sym_obs_int("len", (int)t.size()); sym_reach("sequence");
}
