// Harness API. Under symbolic execution these are implemented by the engine; natively
// (rt/native.cpp) they read one concrete input assignment and check it on the real code.
#pragma once
extern "C" {
int sym_int(const char* name, int lo, int hi);          // symbolic, lo..hi
long sym_i64(const char* name, long lo, long hi);
char sym_char(const char* name, int lo, int hi);
int sym_choose(const char* name, int n);                // 0..n-1, case split
double sym_double_range(const char* name, double lo, double hi);
double sym_double_any(const char* name);                // fp mode: any bit pattern
void sym_assume(int cond);
void sym_check(int cond, const char* label);
void sym_check_eqd(double a, double b, const char* label);  // exact over the reals; tolerance natively
void sym_check_near(double a, double b, double tol, const char* label);  // exact over the reals; given relative tolerance natively
void sym_reach(const char* label);
void sym_obs_int(const char* label, int v);
void sym_obs_d(const char* label, double v);
int sym_try_exit(void (*f)(void*), void* arg);          // 1 when f called exit()
int sym_exit_code();
int sym_symbolic();
int sym_fp();
int sym_param(const char* name, int dflt);
int sym_and(int a, int b); int sym_or(int a, int b); int sym_ite(int c, int a, int b);   // no case split
double sym_ited(int c, double a, double b);
int sym_eqd(double a, double b);
void sym_file(const char* name, const char* data, unsigned long len);
void sym_out_clear();
unsigned long sym_out_len();
int sym_out_number(const char* label, int k, int prec, double* v);
int sym_out_contains(const char* s);
int sym_err_contains(const char* s);  // standard error since sym_out_clear
const char* sym_out_text();   // everything printed since sym_out_clear, NUL terminated
void sym_trace(const char* label, int v);
void sym_traced(const char* label, double v);
}
