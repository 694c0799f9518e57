// Runtime linked with the code under symbolic execution: the parts of libstdc++ / libc the
// repository uses that live in shared libraries.
#include <string>
#include <stdexcept>
#include <functional>
#include <new>
#include <typeinfo>
#include <map>
#include <list>
#include <unordered_map>
#include <iostream>
#include <cstring>
#include <cstdarg>
#include <cstdio>
#include <sys/stat.h>

extern "C" {
double symx_unfmt(double);
int symx_strtod(const char*, double*, long*, int*);
int vsnprintf(char*, size_t, const char*, va_list);
static int g_errno;
int* __errno_location() noexcept { return &g_errno; }
char __libc_single_threaded = 1;
void* __dso_handle = nullptr;
int __cxa_guard_acquire(long* g) { return !*(char*)g; }
void __cxa_guard_release(long* g) { *(char*)g = 1; }
void __cxa_guard_abort(long*) {}
int __cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
void __cxa_bad_cast() { throw std::bad_cast(); }

// ---- ctype (C locale) ----
int isspace(int c) noexcept { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isdigit(int c) noexcept { return (c >= '0') & (c <= '9'); }
int isupper(int c) noexcept { return (c >= 'A') & (c <= 'Z'); }
int islower(int c) noexcept { return (c >= 'a') & (c <= 'z'); }
int isalpha(int c) noexcept { return isupper(c) | islower(c); }
int isalnum(int c) noexcept { return isalpha(c) | isdigit(c); }
int isprint(int c) noexcept { return (c >= 32) & (c <= 126); }
int isgraph(int c) noexcept { return (c > 32) & (c <= 126); }
int ispunct(int c) noexcept { return isgraph(c) & !isalnum(c); }
int isblank(int c) noexcept { return (c == ' ') | (c == 9); }
int iscntrl(int c) noexcept { return ((c >= 0) & (c < 32)) | (c == 127); }
int isxdigit(int c) noexcept { return isdigit(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
int toupper(int c) noexcept { return islower(c) ? c - 32 : c; }
int tolower(int c) noexcept { return isupper(c) ? c + 32 : c; }

// ---- strings ----
#undef strlen
size_t strlen(const char* s) noexcept { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) noexcept { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) noexcept { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
int strcasecmp(const char* a, const char* b) noexcept { while (*a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) a++, b++; return tolower((unsigned char)*a) - tolower((unsigned char)*b); }
char* strcpy(char* d, const char* s) noexcept { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char* strncpy(char* d, const char* s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) noexcept { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) noexcept { size_t l = strlen(d), i = 0; for (; i < n && s[i]; i++) d[l + i] = s[i]; d[l + i] = 0; return d; }
char* stpcpy(char* d, const char* s) noexcept { strcpy(d, s); return d + strlen(s); }
size_t strnlen(const char* s, size_t m) noexcept { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strncasecmp(const char* a, const char* b, size_t n) noexcept { for (; n; n--, a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) break; } return 0; }
static char* find1(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
static char* findr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
static char* finds(const char* s, const char* t) { size_t n = strlen(t), m = strlen(s); for (size_t i = 0; i + n <= m; i++) if (!memcmp(s + i, t, n)) return (char*)s + i; return nullptr; }
static char* findany(const char* s, const char* t) { for (; *s; s++) if (find1(t, *s)) return (char*)s; return nullptr; }
char* symc_strchr(const char* s, int c) asm("strchr"); char* symc_strchr(const char* s, int c) { return find1(s, c); }
char* symc_index(const char* s, int c) asm("index"); char* symc_index(const char* s, int c) { return find1(s, c); }
char* symc_strrchr(const char* s, int c) asm("strrchr"); char* symc_strrchr(const char* s, int c) { return findr(s, c); }
char* symc_rindex(const char* s, int c) asm("rindex"); char* symc_rindex(const char* s, int c) { return findr(s, c); }
char* symc_strstr(const char* s, const char* t) asm("strstr"); char* symc_strstr(const char* s, const char* t) { return finds(s, t); }
char* symc_strpbrk(const char* s, const char* t) asm("strpbrk"); char* symc_strpbrk(const char* s, const char* t) { return findany(s, t); }
size_t strspn(const char* s, const char* t) noexcept { size_t n = 0; while (s[n] && find1(t, s[n])) n++; return n; }
size_t strcspn(const char* s, const char* t) noexcept { size_t n = 0; while (s[n] && !find1(t, s[n])) n++; return n; }
char* strtok_r(char* s, const char* t, char** k) noexcept { if (!s) s = *k; if (!s) return nullptr; s += strspn(s, t); if (!*s) { *k = nullptr; return nullptr; } char* e = s + strcspn(s, t); if (*e) { *e = 0; *k = e + 1; } else *k = nullptr; return s; }
char* strtok(char* s, const char* t) noexcept { static char* k; return strtok_r(s, t, &k); }
int strcoll(const char* a, const char* b) noexcept { return strcmp(a, b); }
void qsort(void* b, size_t n, size_t w, int (*c)(const void*, const void*)) { char* p = (char*)b; char t[256]; if (w > sizeof t) abort(); for (size_t i = 1; i < n; i++) for (size_t j = i; j && c(p + (j - 1) * w, p + j * w) > 0; j--) { memcpy(t, p + j * w, w); memcpy(p + j * w, p + (j - 1) * w, w); memcpy(p + (j - 1) * w, t, w); } }
double hypot(double a, double b) noexcept { return __builtin_sqrt(a * a + b * b); }
double fma(double a, double b, double c) noexcept { return a * b + c; }
double modf(double x, double* i) noexcept { *i = __builtin_trunc(x); return x - *i; }
double ldexp(double x, int e) noexcept { while (e > 0) { x *= 2; e--; } while (e < 0) { x /= 2; e++; } return x; }
double scalbn(double x, int e) noexcept { return ldexp(x, e); }
double nan(const char*) noexcept { return __builtin_nan(""); }
char* strdup(const char* s) noexcept { size_t n = strlen(s) + 1; char* p = (char*)malloc(n); memcpy(p, s, n); return p; }

static inline bool sp(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
long strtol(const char* s, char** e, int base) noexcept {
  const char* p = s;
  while (sp(*p)) p++;
  bool neg = false;
  if (p[0] == 1 && p[1] == 0x23) { long v; memcpy(&v, p + 3, 8); if (e) *e = (char*)p + 11; return v; }  // printed symbolic integer
  if (*p == '+') p++; else if (*p == '-') { neg = true; p++; }
  if (base == 0) { if (p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { base = 16; p += 2; } else if (p[0] == '0') base = 8; else base = 10; }
  long v = 0; bool any = false, over = false;
  for (;;) {
    char c = *p; int d;
    if ((c >= '0') & (c <= '9')) d = c - '0';
    else if (base > 10 && ((c >= 'a') & (c <= 'z'))) d = c - 'a' + 10;
    else if (base > 10 && ((c >= 'A') & (c <= 'Z'))) d = c - 'A' + 10;
    else break;
    if (d >= base) break;
    any = true; p++;
    if (over) continue;
    if (v > (__LONG_MAX__ - d) / base) { over = true; continue; }
    v = v * base + d;
  }
  if (e) *e = (char*)(any ? p : s);
  if (over) { g_errno = 34; return neg ? -__LONG_MAX__ - 1 : __LONG_MAX__; }
  return neg ? -v : v;
}
long long strtoll(const char* s, char** e, int b) noexcept { return strtol(s, e, b); }
unsigned long strtoul(const char* s, char** e, int b) noexcept { return (unsigned long)strtol(s, e, b); }
unsigned long long strtoull(const char* s, char** e, int b) noexcept { return (unsigned long)strtol(s, e, b); }
int atoi(const char* s) noexcept { return (int)strtol(s, nullptr, 10); }
long atol(const char* s) noexcept { return strtol(s, nullptr, 10); }
static const double P10[] = {1, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
static double scale(double x, long e) {
  while (e > 22) { x *= 1e22; e -= 22; }
  while (e < -22) { x /= 1e22; e += 22; }
  return e >= 0 ? x * P10[e] : x / P10[-e];
}
double strtod(const char* s, char** e) noexcept {
  double v; long used; int er;
  if (symx_strtod(s, &v, &used, &er)) { if (er) g_errno = er; if (e) *e = (char*)s + used; return v; }
  const char* p = s;
  while (sp(*p)) p++;
  bool neg = false;
  if (*p == 1 && p[1] == 0x23) { long n; memcpy(&n, p + 3, 8); if (e) *e = (char*)p + 11; return (double)n; }
  if (*p == 1) { memcpy(&v, p + 3, 8); if (e) *e = (char*)p + 11; return v; }  // printed symbolic number
  if (*p == '+') p++; else if (*p == '-') { neg = true; p++; }
  long m = 0; long ex = 0; bool any = false; int nd = 0;
  while ((*p >= '0') & (*p <= '9')) { any = true; if (nd < 17) { m = m * 10 + (*p - '0'); if (nd || *p != '0') nd++; } else ex++; p++; }
  if (*p == '.') { const char* q = p + 1;
    while ((*q >= '0') & (*q <= '9')) { any = true; if (nd < 17) { m = m * 10 + (*q - '0'); if (nd || *q != '0') nd++; ex--; } q++; }
    if (any) p = q; }
  if (!any) {
    if ((p[0] | 32) == 'n' && (p[1] | 32) == 'a' && (p[2] | 32) == 'n') { if (e) *e = (char*)p + 3; return __builtin_nan(""); }
    if ((p[0] | 32) == 'i' && (p[1] | 32) == 'n' && (p[2] | 32) == 'f') { p += 3; if ((p[0] | 32) == 'i' && (p[1] | 32) == 'n' && (p[2] | 32) == 'i' && (p[3] | 32) == 't' && (p[4] | 32) == 'y') p += 5; if (e) *e = (char*)p; return neg ? -__builtin_inf() : __builtin_inf(); }
    if (e) *e = (char*)s; return 0; }
  if ((*p == 'e') | (*p == 'E')) {
    const char* q = p + 1; bool en = false;
    if (*q == '+') q++; else if (*q == '-') { en = true; q++; }
    if ((*q >= '0') & (*q <= '9')) { long x = 0; while ((*q >= '0') & (*q <= '9')) { if (x < 100000) x = x * 10 + (*q - '0'); q++; } ex += en ? -x : x; p = q; }
  }
  if (e) *e = (char*)p;
  if (nd && (ex + nd > 309 || ex + nd < -307)) { g_errno = 34; double x = ex > 0 ? __builtin_inf() : 0; return neg ? -x : x; }
  double r = ex == 0 ? (double)m : scale((double)m, ex);
  return neg ? -r : r;
}
double atof(const char* s) noexcept { return strtod(s, nullptr); }
float strtof(const char* s, char** e) noexcept { return (float)strtod(s, e); }
char* getenv(const char*) noexcept { return nullptr; }

// ---- virtual file system ----
struct VF { const char* name; const char* data; unsigned long len; };
static VF vfs[64]; static int nvfs;
void symx_vfs_create(const char* name, const char* data, unsigned long len) {
  char* d = (char*)malloc(len + 1); memcpy(d, data, len);
  for (int i = 0; i < nvfs; i++) if (!strcmp(vfs[i].name, name)) { vfs[i].data = d; vfs[i].len = len; return; }
  vfs[nvfs].name = strdup(name); vfs[nvfs].data = d; vfs[nvfs].len = len; nvfs++;
}
const char* symx_vfs_find(const char* name, unsigned long* len) {
  if (name[0] == '.' && name[1] == '/') name += 2;
  for (int i = 0; i < nvfs; i++) if (!strcmp(vfs[i].name, name)) { *len = vfs[i].len; return vfs[i].data; }
  return nullptr;
}
void sym_file(const char* name, const char* data, unsigned long len) { symx_vfs_create(name, data, len); }
int stat(const char* n, struct stat* b) noexcept { unsigned long l; if (symx_vfs_find(n, &l)) { b->st_size = l; b->st_mode = 0100644; return 0; } g_errno = 2; return -1; }
int lstat(const char* n, struct stat* b) noexcept { return stat(n, b); }
int access(const char* n, int) noexcept { unsigned long l; if (symx_vfs_find(n, &l)) return 0; g_errno = 2; return -1; }

// ---- console capture ----
static char out_[(1 << 16) + 1]; static unsigned long nout;
static char err_[(1 << 15) + 1]; static unsigned long nerr;
void symx_console(int fd, const char* s, unsigned long n) { if (fd == 2 && nerr + n < sizeof err_) { memcpy(err_ + nerr, s, n); nerr += n; } if (fd != 1) return; if (nout + n < sizeof out_) { memcpy(out_ + nout, s, n); nout += n; } }
void sym_out_clear() { nout = nerr = 0; }
int sym_err_contains(const char* s) { unsigned long n = strlen(s); for (unsigned long i = 0; i + n <= nerr; i++) if (!memcmp(err_ + i, s, n)) return 1; return 0; }
unsigned long sym_out_len() { return nout; }
// value printed after the k-th occurrence of label (default formatting has >= prec significant digits)
static unsigned long skip_(unsigned long i) { return out_[i] == 1 ? i + 11 : i + 1; }  // a printed symbolic number is 11 bytes
static bool at_(unsigned long i, const char* s) { for (; *s; s++, i++) if (i >= nout || out_[i] != *s) return false; return true; }
int sym_out_number(const char* label, int k, int prec, double* v) {
  unsigned long n = strlen(label);
  for (unsigned long i = 0; i + n <= nout; i = skip_(i)) {
    if (!at_(i, label)) continue;
    if (k--) continue;
    unsigned long p = i + n;
    while (p < nout && (out_[p] == ' ' || out_[p] == '\t')) p++;
    if (p < nout && out_[p] == 1) { if (out_[p + 2] - 0x20 < prec) return 0; memcpy(v, out_ + p + 3, 8); *v = symx_unfmt(*v); return 1; }
    char tmp[64]; int m = 0;
    while (p < nout && m < 63 && out_[p] != ' ' && out_[p] != '\n') tmp[m++] = out_[p++];
    tmp[m] = 0; char* e; *v = strtod(tmp, &e); return e != tmp;
  }
  return 0;
}
// C output
static char so_, se_, si_;
FILE* stdout = (FILE*)&so_; FILE* stderr = (FILE*)&se_; FILE* stdin = (FILE*)&si_;
static int fd_(FILE* f) { return f == stdout ? 1 : f == stderr ? 2 : 0; }
int vfprintf(FILE* f, const char* s, va_list ap) { static char b[1 << 14]; int n = vsnprintf(b, sizeof b, s, ap); symx_console(fd_(f), b, n); return n; }
int vprintf(const char* s, va_list ap) { return vfprintf(stdout, s, ap); }
int printf(const char* s, ...) { va_list ap; va_start(ap, s); int n = vfprintf(stdout, s, ap); va_end(ap); return n; }
int fprintf(FILE* f, const char* s, ...) { va_list ap; va_start(ap, s); int n = vfprintf(f, s, ap); va_end(ap); return n; }
int fputs(const char* s, FILE* f) { symx_console(fd_(f), s, strlen(s)); return 1; }
int puts(const char* s) { fputs(s, stdout); fputs("\n", stdout); return 1; }
int fputc(int c, FILE* f) { char b = c; symx_console(fd_(f), &b, 1); return c; }
int putc(int c, FILE* f) { return fputc(c, f); }
int putchar(int c) { return fputc(c, stdout); }
size_t fwrite(const void* p, size_t m, size_t n, FILE* f) { symx_console(fd_(f), (const char*)p, m * n); return n; }
// C input
struct RF { char tag; const char* d; unsigned long n, p; bool eof; int back; };
FILE* fopen(const char* n, const char* m) { unsigned long l; if (m[0] != 'r') return nullptr; const char* d = symx_vfs_find(n, &l); if (!d) { g_errno = 2; return nullptr; } RF* f = (RF*)malloc(sizeof(RF)); f->d = d; f->n = l; f->p = 0; f->eof = false; return (FILE*)f; }
FILE* symc_fopen64(const char* n, const char* m) asm("fopen64"); FILE* symc_fopen64(const char* n, const char* m) { return fopen(n, m); }
int fclose(FILE* f) { if (f != stdout && f != stderr) free(f); return 0; }
int fgetc(FILE* f_) { RF* f = (RF*)f_; if (f->p >= f->n) { f->eof = true; return -1; } return (unsigned char)f->d[f->p++]; }
int getc(FILE* f) { return fgetc(f); }
int ungetc(int c, FILE* f_) { RF* f = (RF*)f_; if (c != -1 && f->p) { f->p--; f->eof = false; } return c; }
char* fgets(char* b, int n, FILE* f) { int i = 0; while (i < n - 1) { int c = fgetc(f); if (c == -1) break; b[i++] = (char)c; if (c == 10) break; } if (!i) return nullptr; b[i] = 0; return b; }
int feof(FILE* f) noexcept { return ((RF*)f)->eof; } int ferror(FILE*) noexcept { return 0; }
void rewind(FILE* f) { ((RF*)f)->p = 0; ((RF*)f)->eof = false; }
long ftell(FILE* f) { return (long)((RF*)f)->p; }
int fseek(FILE* f_, long o, int w) { RF* f = (RF*)f_; f->p = (w == 0 ? 0 : w == 1 ? f->p : f->n) + o; f->eof = false; return 0; }
size_t fread(void* p, size_t w, size_t n, FILE* f_) { RF* f = (RF*)f_; size_t m = w * n, a = f->n - f->p; if (m > a) { m = a; f->eof = true; } memcpy(p, f->d + f->p, m); f->p += m; return w ? m / w : 0; }
static int scan_(const char*& s, const char* f, va_list ap) {
  const char* s0 = s; int got = 0;
  for (; *f; f++) {
    if (sp(*f)) { while (sp(*s)) s++; continue; }
    if (*f != '%') { if (*s != *f) return *s || got ? got : -1; s++; continue; }
    f++; if (*f == '%') { while (sp(*s)) s++; if (*s != '%') return got; s++; continue; }
    bool skip = *f == '*'; if (skip) f++; int w = 0; while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
    int l = 0; while (*f == 'l' || *f == 'h' || *f == 'z') { l += *f == 'h' ? -1 : 1; f++; }
    if (*f == 'n') { *va_arg(ap, int*) = (int)(s - s0); continue; }
    if (*f != 'c' && *f != '[') while (sp(*s)) s++;
    if (!*s) return got ? got : -1;
    if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x') {
      char t[64]; const char* b = s; if (w && w < 63) { strncpy(t, s, w); t[w] = 0; b = t; } char* e; long v = strtol(b, &e, *f == 'i' ? 0 : *f == 'x' ? 16 : 10); if (e == b) return got; s += e - b;
      if (!skip) { if (l > 0) *va_arg(ap, long*) = v; else if (l < 0) *va_arg(ap, short*) = (short)v; else *va_arg(ap, int*) = (int)v; got++; }
    } else if (*f == 'f' || *f == 'g' || *f == 'e' || *f == 'E') {
      char t[64]; const char* b = s; if (w && w < 63) { strncpy(t, s, w); t[w] = 0; b = t; } char* e; double v = strtod(b, &e); if (e == b) return got; s += e - b;
      if (!skip) { if (l > 0) *va_arg(ap, double*) = v; else *va_arg(ap, float*) = (float)v; got++; }
    } else if (*f == 's' || *f == 'c') {
      char* o = skip ? nullptr : va_arg(ap, char*); bool c = *f == 'c'; if (c && !w) w = 1; int i = 0;
      for (; *s && (!w || i < w) && (c || !sp(*s)); i++, s++) if (o) o[i] = *s;
      if (o) { if (!c) o[i] = 0; got++; }
    } else if (*f == '[') {
      f++; bool no = *f == '^'; if (no) f++; bool in[256]; for (int i = 0; i < 256; i++) in[i] = no;
      for (bool first = true; *f && (first || *f != ']'); first = false) { unsigned char a = *f, b = a; if (f[1] == '-' && f[2] && f[2] != ']') { b = f[2]; f += 2; } for (int i = a; i <= b; i++) in[i] = !no; f++; }
      char* o = skip ? nullptr : va_arg(ap, char*); int i = 0; for (; *s && (!w || i < w) && in[(unsigned char)*s]; i++, s++) if (o) o[i] = *s; if (!i) return got; if (o) { o[i] = 0; got++; }
    } else abort();
  }
  return got;
}
int symc_vsscanf(const char* s, const char* f, va_list ap) { return scan_(s, f, ap); }
int symc_sscanf(const char* s, const char* f, ...) asm("sscanf"); int symc_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int n = scan_(s, f, ap); va_end(ap); return n; }
int symc_sscanf99(const char* s, const char* f, ...) asm("__isoc99_sscanf"); int symc_sscanf99(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int n = scan_(s, f, ap); va_end(ap); return n; }
int symc_sscanf23(const char* s, const char* f, ...) asm("__isoc23_sscanf"); int symc_sscanf23(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int n = scan_(s, f, ap); va_end(ap); return n; }
static int fscan_(FILE* f_, const char* m, va_list ap) { RF* f = (RF*)f_; char* t = (char*)malloc(f->n - f->p + 1); memcpy(t, f->d + f->p, f->n - f->p); t[f->n - f->p] = 0; const char* s = t; int n = scan_(s, m, ap); f->p += s - t; if (n < 0) f->eof = true; free(t); return n; }
int symc_fscanf(FILE* s, const char* f, ...) asm("fscanf"); int symc_fscanf(FILE* s, const char* f, ...) { va_list ap; va_start(ap, f); int n = fscan_(s, f, ap); va_end(ap); return n; }
int symc_fscanf99(FILE* s, const char* f, ...) asm("__isoc99_fscanf"); int symc_fscanf99(FILE* s, const char* f, ...) { va_list ap; va_start(ap, f); int n = fscan_(s, f, ap); va_end(ap); return n; }
int symc_fscanf23(FILE* s, const char* f, ...) asm("__isoc23_fscanf"); int symc_fscanf23(FILE* s, const char* f, ...) { va_list ap; va_start(ap, f); int n = fscan_(s, f, ap); va_end(ap); return n; }
int sym_out_contains(const char* s) { for (unsigned long i = 0; i < nout; i = skip_(i)) if (at_(i, s)) return 1; return 0; }
const char* sym_out_text() { out_[nout] = 0; return out_; }
}

void* operator new(size_t n, const std::nothrow_t&) noexcept { return ::operator new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return ::operator new[](n); }
namespace std {
#define EARLY __attribute__((init_priority(101)))
ostream cout EARLY, cerr EARLY, clog EARLY; istream cin EARLY;
struct ConInit { ConInit() { cout.con_ = 1; cerr.con_ = 2; clog.con_ = 2; } };
static ConInit conInit __attribute__((init_priority(101)));
const locale& locale::classic() { static locale l; return l; }
template ostream& operator<< <char, char_traits<char>, allocator<char>>(ostream&, const string&);

// exceptions
static const char* keep(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() { _M_p = ""; }
__cow_string::__cow_string(const std::string& s) { _M_p = keep(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { _M_p = keep(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = o._M_p; }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define EXC(n, b) n::n(const string& s) : b(s) {} n::n(const char* s) : b(s) {} n::~n() noexcept {}
EXC(domain_error, logic_error) EXC(invalid_argument, logic_error) EXC(length_error, logic_error) EXC(out_of_range, logic_error)
EXC(range_error, runtime_error) EXC(overflow_error, runtime_error) EXC(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_system_error(int) { throw runtime_error("system_error"); }

// red-black trees (plain unbalanced-safe reimplementation of the libstdc++ helpers)
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
// Balance is not observable: insertion keeps the tree ordered, colours mark only the header red.
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  auto repl = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) {
    if (h._M_parent == o) h._M_parent = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n;
    if (n) n->_M_parent = o->_M_parent; };
  if (h._M_left == z) { if (z->_M_right) { auto* t = z->_M_right; while (t->_M_left) t = t->_M_left; h._M_left = t; } else h._M_left = z->_M_parent; }
  if (h._M_right == z) { if (z->_M_left) { auto* t = z->_M_left; while (t->_M_right) t = t->_M_right; h._M_right = t; } else h._M_right = z->_M_parent; }
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else {
    auto* y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this == l) return;
  l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
  _List_node_base* const t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t k = 13; while (k < n) k = k * 2 + 3; _M_next_resize = k; return k; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize || _M_next_resize == 0) { if (ne + ni < nb) { _M_next_resize = nb; return {false, 0}; } return {true, _M_next_bkt(ne + ni + 1)}; }
  return {false, 0};
}
}  // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* s = (const unsigned char*)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 31 + s[i]; return h; }
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
}  // namespace std
