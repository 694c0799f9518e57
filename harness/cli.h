// Command lines for the argument parser.
#pragma once
#include "str.h"
#include "io/argumentparser.hpp"
using namespace catnip;
struct Cmd {
  vector<string> a;
  Cmd() { a.push_back("calc_J"); }
  Cmd& operator()(const string& s) { a.push_back(s); return *this; }
  // 0 parsed, 1 refused with an error, 2 the program ends
  int run(ArgumentParser& p) const {
    vector<const char*> v; for (auto& s : a) v.push_back(s.c_str());
    return outcome([&] { p.parse(v.data(), (int)v.size()); }, true);
  }
};
inline vector<string> flag(const char* l, const char* s, const char* d = "text") { vector<string> v; v.push_back(l); v.push_back(s); v.push_back(d); return v; }
