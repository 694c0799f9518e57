// Native side of the harness API: replays one input assignment on the real code.
#include "symx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <set>
#include <iostream>
#include <sstream>
#include <fstream>
#include <setjmp.h>
#include <unistd.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <dlfcn.h>
#include <fcntl.h>

static std::map<std::string, std::pair<char, std::string>> in;
static std::map<std::string, int> cnt, params;
static FILE* rep;
static jmp_buf* jb; static int exitCode;
static std::string outName, errName; static long outFrom = 0; static size_t errFrom = 0;  // what the code prints goes to a file
static std::string next(const char* n) { int k = cnt[n]++; return k ? std::string(n) + "#" + std::to_string(k) : n; }
extern "C" {
void __real_exit(int);
static long geti(const char* name, long lo, long hi) {
  auto it = in.find(next(name));
  if (it == in.end()) return lo > 0 ? lo : hi < 0 ? hi : 0;
  long v = atol(it->second.second.c_str());
  if (v < lo || v > hi) { fprintf(rep, "ASSUME range %s\n", name); fflush(rep); _exit(10); }
  return v;
}
int sym_int(const char* n, int lo, int hi) { return geti(n, lo, hi); }
long sym_i64(const char* n, long lo, long hi) { return geti(n, lo, hi); }
char sym_char(const char* n, int lo, int hi) { return (char)geti(n, lo, hi); }
int sym_choose(const char* n, int k) { return geti(n, 0, k - 1); }
static double getd(const char* n, double dflt) {
  auto it = in.find(next(n));
  if (it == in.end()) return dflt;
  unsigned long u = strtoul(it->second.second.c_str(), 0, 16); double d; memcpy(&d, &u, 8); return d;
}
double sym_double_range(const char* n, double lo, double hi) { return getd(n, lo > 0 ? lo : hi < 0 ? hi : 0); }
double sym_double_any(const char* n) { return getd(n, 0); }
void sym_assume(int c) { if (!c) { fprintf(rep, "ASSUME false\n"); fflush(rep); _exit(10); } }
void sym_check(int c, const char* l) { if (!c) { fprintf(rep, "FAIL %s\n", l); fflush(rep); } }
void sym_check_eqd(double a, double b, const char* l) { sym_check_near(a, b, 1e-9, l); }
void sym_check_near(double a, double b, double tol, const char* l) {
  bool ok = a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b));
  if (!ok) { fprintf(rep, "FAIL %s (%.17g vs %.17g)\n", l, a, b); fflush(rep); }
}
void sym_reach(const char*) {}
void sym_obs_int(const char* l, int v) { fprintf(rep, "OBS I %d %s\n", v, l); fflush(rep); }
void sym_obs_d(const char* l, double v) { fprintf(rep, "OBS D %.17g %s\n", v, l); fflush(rep); }
void __wrap_exit(int c) { if (jb) { exitCode = c; longjmp(*jb, 1); } fprintf(rep, "EXIT %d\n", c); fflush(rep); _exit(20); }
int sym_try_exit(void (*f)(void*), void* a) {
  jmp_buf b; jmp_buf* volatile old = jb; volatile int r = 0;
  jb = &b;
  if (setjmp(b) == 0) { try { f(a); } catch (...) { jb = old; throw; } } else r = 1;
  jb = old; return r;
}
int sym_exit_code() { return exitCode; }
int sym_symbolic() { return 0; }
int sym_fp() { return params.count("__fp") ? params["__fp"] : 0; }
int sym_param(const char* n, int d) { return params.count(n) ? params[n] : d; }
int sym_and(int a, int b) { return a && b; } int sym_or(int a, int b) { return a || b; } int sym_ite(int c, int a, int b) { return c ? a : b; }
double sym_ited(int c, double a, double b) { return c ? a : b; }
int sym_eqd(double a, double b) { return a == b; }
void sym_file(const char* n, const char* d, unsigned long len) {
  if (n[0] == '/' || strstr(n, "..")) { fprintf(rep, "ASSUME bad file name\n"); fflush(rep); _exit(10); }
  std::string p = n; for (size_t i = 1; i < p.size(); i++) if (p[i] == '/') mkdir(p.substr(0, i).c_str(), 0755);
  std::ofstream o(n, std::ios::binary); o.write(d, len);
}
static std::string outText() {
  std::cout.flush(); fflush(stdout); std::string t; char b[4096]; size_t n;
  FILE* f = fopen(outName.c_str(), "r"); if (!f) return t;
  fseek(f, outFrom, SEEK_SET); while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n);
  fclose(f); return t;
}
static std::string errText() {
  std::cerr.flush(); fflush(stderr); std::ifstream f(errName); std::string t((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); return t;
}
void sym_out_clear() { outFrom += outText().size(); errFrom = errText().size(); }
int sym_err_contains(const char* x) { return errText().find(x, errFrom) != std::string::npos; }
unsigned long sym_out_len() { return outText().size(); }
const char* sym_out_text() { static std::string t; t = outText(); return t.c_str(); }
int sym_out_number(const char* label, int k, int, double* v) {
  std::string s = outText(); size_t p = 0;
  for (;;) { p = s.find(label, p); if (p == std::string::npos) return 0; if (!k--) break; p++; }
  p += strlen(label); char* e; const char* c = s.c_str() + p; *v = strtod(c, &e); return e != c;
}
int sym_out_contains(const char* x) { return outText().find(x) != std::string::npos; }
void sym_trace(const char*, int) {} void sym_traced(const char*, double) {}
}
// usage: prog <jobs-file> <report> <scratch>   jobs: "J <id> <entry>" / "P name v" / "I name v" / "D name hex" / "E"
int main(int argc, char** argv) {
  if (argc < 4) return 2;
  std::ifstream jf(argv[1]);
  std::string line, id, entry;
  std::map<std::string, std::pair<char, std::string>> cur; std::map<std::string, int> ps;
  FILE* out = fopen(argv[2], "w");
  setvbuf(out, 0, _IOLBF, 1 << 16);
  int tmo = getenv("SYMX_REPLAY_TIMEOUT") ? atoi(getenv("SYMX_REPLAY_TIMEOUT")) : 10, n = 0;
  std::string scratch = argv[3];
  while (std::getline(jf, line)) {
    if (line.empty()) continue;
    std::istringstream ls(line.substr(1)); 
    if (line[0] == 'J') { ls >> id >> entry; cur.clear(); ps.clear(); }
    else if (line[0] == 'P') { std::string k; int v; ls >> k >> v; ps[k] = v; }
    else if (line[0] == 'I' || line[0] == 'D') { size_t p = line.rfind(' '); cur[line.substr(2, p - 2)] = {line[0], line.substr(p + 1)}; }
    else if (line[0] == 'E') {
      std::string dir = scratch + "/j" + std::to_string(n++), rf = dir + "/.report";
      mkdir(dir.c_str(), 0755);
      fprintf(out, "JOB %s\n", id.c_str()); fflush(out);
      pid_t pid = fork();
      if (pid == 0) {
        rep = fopen(rf.c_str(), "w"); if (!rep || chdir(dir.c_str())) _exit(99);
        int nul = open("err", 01 | 0100, 0644); (void)nul; if (nul >= 0) { dup2(nul, 2); }
        in = cur; params = ps;
        outName = dir + "/.out"; errName = dir + "/err"; if (!freopen(outName.c_str(), "w", stdout)) _exit(97);
        alarm(tmo);
        auto f = (void (*)())dlsym(RTLD_DEFAULT, entry.c_str());
        if (!f) { fprintf(rep, "NOENTRY\n"); fflush(rep); _exit(98); }
        try { f(); } catch (std::exception& e) { fprintf(rep, "FAIL uncaught-exception %s\n", e.what()); fflush(rep); _exit(0); } catch (...) { fprintf(rep, "FAIL uncaught-exception\n"); fflush(rep); _exit(0); }
        fprintf(rep, "DONE\n"); fflush(rep);
        _exit(0);
      }
      int st = 0; waitpid(pid, &st, 0);
      { std::ifstream r(rf); std::string l; while (std::getline(r, l)) fprintf(out, "%s\n", l.c_str()); }
      if (WIFSIGNALED(st)) fprintf(out, "SIGNAL %d\n", WTERMSIG(st)); else if (WEXITSTATUS(st)) fprintf(out, "STATUS %d\n", WEXITSTATUS(st));
      { std::ifstream r(dir + "/err"); std::string l; while (std::getline(r, l)) if (l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("SUMMARY:") != std::string::npos || l.find("terminate called") != std::string::npos || l.find("runtime error") != std::string::npos) fprintf(out, "ERR %s\n", l.c_str()); }
      fprintf(out, "END\n"); fflush(out);
    }
  }
  fclose(out);
  return 0;
}
