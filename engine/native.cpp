// Native counterpart of the harness API: replays concrete inputs on the real,
// uninstrumented code.  exit 0: obligations hold; 10: violated; others: abnormal end.
#include "harness.h"
#include <map>
#include <string>
#include <fstream>
#include <iostream>
#include <cmath>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <new>
#include <unistd.h>
static std::map<std::string, std::string> In; static std::map<std::string, int> Cnt; static int Failed = 0;
static double TOL = 1e-6;
static std::string uniq(const char *n) { int k = Cnt[n]++; return k ? std::string(n) + "#" + std::to_string(k) : std::string(n); }
static double parse(const std::string &s) { size_t p = s.find('/'); if (p == std::string::npos) return strtod(s.c_str(), 0); return (double)(strtold(s.c_str(), 0) / strtold(s.c_str() + p + 1, 0)); }
static double get(const char *n, double def) { std::string u = uniq(n); auto it = In.find(u); double v = it == In.end() ? def : parse(it->second); printf("INPUT %s = %.17g\n", u.c_str(), v); return v; }
static bool cmp(int op, double a, double b, double t) { switch (op) { case 0: return std::fabs(a - b) <= t; case 1: return a != b; case 2: return a < b + t; case 3: return a <= b + t; case 4: return a > b - t; default: return a >= b - t; } }
extern "C" {
double sym_real(const char *n) { return get(n, 0); }
double sym_range(const char *n, double lo, double hi) { double v = get(n, (lo + hi) / 2); if (v < lo) v = lo; if (v > hi) v = hi; return v; }
int sym_int(const char *n, int lo, int) { return (int)get(n, lo); }
void sym_assume_cmp(int op, double a, double b) { if (!cmp(op, a, b, op == 0 ? 1e-9 * (1 + std::fabs(a)) : 0)) { printf("PRECONDITION %d %.17g %.17g\n", op, a, b); if (op == 1 || ((op == 2 || op == 4) && a == b) || !cmp(op, a, b, 1e-9 * (1 + std::fabs(a)))) { fflush(0); _exit(20); } } }
void sym_check_cmp(int op, double a, double b, const char *w) {
  double sc = std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b))); bool ok = cmp(op, a, b, TOL * sc); if (a == b && op == 0) ok = true; if (std::isnan(a)) ok = false; if (op != 1 && !std::isfinite(b)) ok = true; /* specification not computable at this point in double precision */
  printf("%s %s: %.12g vs %.12g\n", ok ? "ok  " : "FAIL", w, a, b); if (!ok) Failed = 1; }
void sym_check_bool(int c, const char *w) { printf("%s %s\n", c ? "ok  " : "FAIL", w); if (!c) Failed = 1; }
void sym_reach(const char *l) { printf("REACH %s\n", l); }
void sym_end_path(void) { fflush(0); _exit(20); }
int sym_is_symbolic(double) { return 0; }
int sym_native(void) { return 1; }
void sym_numeric(int) {}
void sym_stub_draw_note(const char *) {}
}
std::vector<HarnessCase> &harnessCases() { static std::vector<HarnessCase> v; return v; }
// fresh memory is filled with a recognisable garbage value (double -6.3e+66)
static void *alloc(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); memset(p, 0xCD, n); return p; }
void *operator new(size_t n) { return alloc(n); }
void *operator new[](size_t n) { return alloc(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
int main(int argc, char **argv) {
  std::string cs; for (int i = 1; i + 1 < argc; i++) { std::string a = argv[i]; if (a == "--case") cs = argv[++i]; else if (a == "--in") { std::ifstream f(argv[++i]); std::string l; while (std::getline(f, l)) { size_t t = l.find('\t'); if (t != std::string::npos) In[l.substr(0, t)] = l.substr(t + 1); } } }
  alarm(60); setvbuf(stdout, 0, _IOLBF, 0);
  for (auto &c : harnessCases()) if (cs == c.name) { c.fn(); fflush(0); _exit(Failed ? 10 : 0); }
  return 2;
}
