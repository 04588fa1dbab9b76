// Sampling a discrete distribution: the inverse of its cumulative distribution at the uniform draw, for every draw.
#include "common.h"
#include <pdf/discretepdf.h>
#include "pick.h"
using namespace BFL;
static Vd symP(const char *nme, int n) { Vd v = symV(nme, n); double s = 0; for (double x : v) { ASSUME_GE(x, 0.0); s = s + x; } ASSUME_GT(s, 0.0); return v; }
static Vd norm(const Vd &v) { double s = 0; for (double x : v) s = s + x; Vd r = v; for (double &x : r) x = x / s; return r; }
static bool setAll(DiscretePdf &d, const Vd &v) { std::vector<Probability> p; for (double x : v) p.push_back(Probability(x)); return d.ProbabilitiesSet(p); }
static void one(const DiscretePdf &d, const Vd &p) { Sample<int> s; rng_reset(); CHECK(d.SampleFrom(s), "sampling succeeds"); CHECK(rng_count() == 1, "one draw per sample"); if (rng_count() == 1) checkPick(p, rng_draw(0), s.ValueGet(), "sampled state"); }
CASE(single) { int n = sym_int("n", 1, 5); Vd v = symP("v", n); DiscretePdf d(n); setAll(d, v); one(d, norm(v)); REACH("end"); }
CASE(fresh) { int n = sym_int("n", 1, 6); DiscretePdf d(n); one(d, Vd(n, 1.0 / n)); REACH("end"); }
CASE(zeros) { int n = sym_int("n", 2, 4); Vd v(n, 0.0); bool any = false; for (int i = 0; i < n; i++) if (sym_int("nz", 0, 1)) { v[i] = sym_real("v"); ASSUME_GT(v[i], 0.0); any = true; } ASSUME(any); DiscretePdf d(n); setAll(d, v); one(d, norm(v)); REACH("end"); }
static void list(int n, int k) { Vd v = symP("v", n); Vd p = norm(v); DiscretePdf d(n); setAll(d, v); std::vector<Sample<int> > L(sym_int("old", 0, 2)); rng_reset(); CHECK(d.SampleFrom(L, k), "sampling succeeds"); CHECK((int)L.size() == k && rng_count() == k, "one sample per request, one draw per sample"); if ((int)L.size() == k && rng_count() == k) for (int i = 0; i < k; i++) checkPick(p, rng_draw(i), L[i].ValueGet(), "sampled state in a list"); REACH("end"); }
CASE(list_2) { list(2, sym_int("k", 1, 3)); }
CASE(list_3) { list(3, sym_int("k", 1, 2)); }
static void ripley(int n, int k, bool symp) { Vd v = symp ? symP("v", n) : Vd(n, 1.0); if (!symp) v[n - 1] = 3.0; Vd p = norm(v); DiscretePdf d(n); setAll(d, v); std::vector<Sample<int> > L(sym_int("old", 0, 1)); rng_reset(); CHECK(d.SampleFrom(L, k, SampleMthd::RIPLEY), "sampling succeeds"); CHECK((int)L.size() == k && rng_count() == k, "one sample per request"); if ((int)L.size() != k || rng_count() != k) return; Vd u(k); for (int i = 0; i < k; i++) u[i] = rng_draw(i); u = ordered(u); for (int i = 0; i < k; i++) checkPick(p, u[i], L[i].ValueGet(), "ordered sampling"); for (int i = 1; i < k; i++) CHECK(L[i - 1].ValueGet() <= L[i].ValueGet(), "ordered sampling yields ordered states"); REACH("end"); }
CASE(ripley_1) { ripley(sym_int("n", 1, 4), 1, true); }
CASE(ripley_2) { ripley(sym_int("n", 1, 3), 2, true); }
CASE(ripley_3) { ripley(sym_int("n", 1, 3), 3, false); }
static void route(const DiscretePdf &d, const Vd &p) { // one of the three ways to draw
  int r = sym_int("route", 0, 2); if (!r) { one(d, p); return; } int k = r == 1 ? 2 : 1; std::vector<Sample<int> > L; rng_reset(); CHECK(d.SampleFrom(L, k, r == 1 ? SampleMthd::DEFAULT : SampleMthd::RIPLEY), "sampling succeeds"); CHECK((int)L.size() == k && rng_count() == k, "requested number of samples"); if ((int)L.size() == k && rng_count() == k) for (int i = 0; i < k; i++) checkPick(p, rng_draw(i), L[i].ValueGet(), "sampled state in a list"); }
CASE(after_changes) { // the sampler follows every change of the probabilities
  int n = 2; DiscretePdf d(n); Vd p(n, 1.0 / n); for (int s = 0; s < 3; s++) { int op = sym_int("op", 0, 3); if (op == 0) { Vd v = symP("v", n); setAll(d, v); p = norm(v); } else if (op == 1) { int k = sym_int("k", 0, n - 1); double a = sym_range("a", 0, 1); d.ProbabilitySet(k, a); p[k] = a; p[1 - k] = 1 - a; } else if (op == 2) { Sample<int> t; rng_reset(); rng_queue(0.5); d.SampleFrom(t); std::vector<Sample<int> > l; rng_reset(); rng_queue(0.25); rng_queue(0.75); d.SampleFrom(l, 2, sym_int("ordered", 0, 1) ? SampleMthd::RIPLEY : SampleMthd::DEFAULT); rng_reset(); } else { DiscretePdf c(d); d.ProbabilitySet(0, 0.25); d = c; } } route(d, p); REACH("end"); }
CASE(copies) { int n = sym_int("n", 1, 3); Vd v = symP("v", n), w = symP("w", n); DiscretePdf d(n); setAll(d, v); DiscretePdf c(d); DiscretePdf *k = d.Clone(); setAll(d, w); one(c, norm(v)); one(*k, norm(v)); delete k; REACH("end"); }
CASE(unsupported) { DiscretePdf d(3); Sample<int> s; std::vector<Sample<int> > L; double u = sym_real("x"); (void)u; CHECK(!d.SampleFrom(s, SampleMthd::CHOLESKY), "unsupported method reports failure"); CHECK(!d.SampleFrom(L, 2, SampleMthd::CHOLESKY), "unsupported method reports failure"); REACH("end"); }
CASE_T(ripley_2_sym4) { ripley(4, 2, true); }
CASE_T(ripley_4) { ripley(sym_int("n", 1, 2), 4, false); }
CASE_T(list_4) { list(4, 3); }
CASE_T(single_8) { int n = sym_int("n", 6, 8); Vd v = symP("v", n); DiscretePdf d(n); setAll(d, v); one(d, norm(v)); REACH("end"); }
CASE(sizes) { int n = sym_int("n", 6, 16), z = sym_int("zero", 0, 2); Vd v(n); for (int i = 0; i < n; i++) v[i] = z == 1 && i % 3 == 0 ? 0 : z == 2 && i > 2 ? 0 : 1 + (i * 5) % 7; DiscretePdf d(n); setAll(d, v); one(d, norm(v)); d.ProbabilitySet(n - 1, 0.5); Vd p = norm(v); if (p[n - 1] < 1) { double o = p[n - 1]; for (double &x : p) x = x * 0.5 / (1 - o); p[n - 1] = 0.5; one(d, p); } REACH("end"); }
CASE(long_lists) { // one free draw at any place of a long list, the others fixed
  int n = sym_int("n", 2, 4), k = sym_int("k", 5, 10), at = sym_int("at", 0, 9); ASSUME(at < k); Vd v(n); for (int i = 0; i < n; i++) v[i] = 1 + (i * 5) % 7; DiscretePdf d(n); setAll(d, v); Vd p = norm(v), u(k); for (int i = 0; i < k; i++) u[i] = ((i * 7) % 16) / 16.0 + 0.01; double x = sym_real("u"); ASSUME_GE(x, 0.0); ASSUME_LT(x, 1.0); u[at] = x; rng_reset(); for (double y : u) rng_queue(y); std::vector<Sample<int> > L(sym_int("old", 0, 1) * 12); CHECK(d.SampleFrom(L, k), "sampling succeeds"); CHECK((int)L.size() == k && rng_count() == k, "one sample per request, one draw per sample"); if ((int)L.size() == k) for (int i = 0; i < k; i++) checkPick(p, u[i], L[i].ValueGet(), "sampled state in a list"); rng_reset(); REACH("end"); }
// ordered sampling of long lists: all draws fixed but one, powers of fixed numbers in double arithmetic (hence the tolerance)
static void checkPickTol(const Vd &p, double u, int k, const char *w) { int n = p.size(); CHECK(k >= 0 && k < n, w); if (k < 0 || k >= n) return; double lo = 0; for (int i = 0; i < k; i++) lo = lo + p[i]; CHECK_LE(lo - 1e-9, u, w); CHECK_LE(u, lo + p[k] + 1e-9, w); }
CASE(ripley_long) { sym_numeric(1); int n = sym_int("n", 2, 5), k = sym_int("k", 4, 9); Vd v; for (int i = 0; i < n; i++) v.push_back(i == n - 1 ? 16.0 - n * (n - 1) / 2 : 1.0 + i); DiscretePdf d(n); setAll(d, v); Vd p = norm(v), u(k); for (int i = 0; i < k; i++) u[i] = ((i * 7) % 16) / 16.0 + 0.01; double x = sym_real("u"); ASSUME_GE(x, 0.0); ASSUME_LT(x, 1.0); u[0] = x; rng_reset(); for (double y : u) rng_queue(y); std::vector<Sample<int> > L(sym_int("old", 0, 1) * 12); CHECK(d.SampleFrom(L, k, SampleMthd::RIPLEY), "sampling succeeds"); CHECK((int)L.size() == k && rng_count() == k, "requested number of samples"); u = ordered(u); if ((int)L.size() == k) for (int i = 0; i < k; i++) checkPickTol(p, u[i], L[i].ValueGet(), "ordered sampling"); rng_reset(); REACH("end"); }
CASE(none) { int n = sym_int("n", 1, 3); Vd v = symP("v", n); DiscretePdf d(n); setAll(d, v); std::vector<Sample<int> > L(sym_int("old", 0, 2)); rng_reset(); CHECK(d.SampleFrom(L, 0, sym_int("ordered", 0, 1) ? SampleMthd::RIPLEY : SampleMthd::DEFAULT), "sampling succeeds"); CHECK(L.empty() && rng_count() == 0, "no samples requested"); one(d, norm(v)); REACH("end"); }
// far beyond the fully symbolic sizes: fixed values apart from a few free ones
CASE(big) { int n = sym_int("n", 0, 3); n = n == 0 ? 20 : n == 1 ? 33 : n == 2 ? 64 : 130; int z = sym_int("zero", 0, 1); Vd v(n); for (int i = 0; i < n; i++) v[i] = z && i % 3 == 0 ? 0 : 1 + (i * 5) % 7; DiscretePdf d(n); setAll(d, v); one(d, norm(v)); REACH("end"); }
CASE(big_lists) { int n = sym_int("n", 0, 1) ? 40 : 3, k = sym_int("k", 0, 1) ? 33 : 70, at = sym_int("at", 0, 1) ? k - 1 : k / 2; Vd v(n); for (int i = 0; i < n; i++) v[i] = 1 + (i * 5) % 7; DiscretePdf d(n); setAll(d, v); Vd p = norm(v), u(k); for (int i = 0; i < k; i++) u[i] = ((i * 7) % 64) / 64.0 + 0.001; double x = sym_real("u"); ASSUME_GE(x, 0.0); ASSUME_LT(x, 1.0); u[at] = x; rng_reset(); for (double y : u) rng_queue(y); std::vector<Sample<int> > L(sym_int("old", 0, 1) * 100); CHECK(d.SampleFrom(L, k), "sampling succeeds"); CHECK((int)L.size() == k && rng_count() == k, "one sample per request, one draw per sample"); if ((int)L.size() == k) for (int i = 0; i < k; i++) checkPick(p, u[i], L[i].ValueGet(), "sampled state in a list"); rng_reset(); REACH("end"); }
CASE(assigned) { int n = sym_int("n", 1, 3), k = sym_int("k", 1, 3); Vd v = symP("v", n); DiscretePdf d(n), e(k); setAll(d, v); Vd u(k, 1.0); setAll(e, u); if (sym_int("warm", 0, 1)) { Sample<int> x; rng_reset(); rng_queue(0.5); e.SampleFrom(x); } e = d; if (sym_int("change", 0, 1)) { Vd w(n, 0.0); w[0] = 1.0; setAll(d, w); } route(e, norm(v)); REACH("end"); }
