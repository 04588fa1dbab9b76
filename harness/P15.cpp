// Sampling from a sample-based density: the inverse of the cumulative weights at the draw, for every draw and weight.
#include "common.h"
#include "pick.h"
#include "mc.h"
// samples are identified by distinct symbolic values: particle i has value base + i in its first coordinate
static WS ids(int n, int d) { WS s = symWS("", n, d); double b = sym_real("base"); for (int i = 0; i < n; i++) s.x[i][0] = b + i; return s; }
static int which(const ColumnVector &v, const WS &s, const char *w) { // concrete index of the particle a sample equals
  CHECK(v.rows() == s.x[0].size(), (std::string(w) + ": dimension").c_str()); if (v.rows() != s.x[0].size()) return -1; double o = v(1) - s.x[0][0]; for (int i = 0; i < s.size(); i++) if (o == (double)i) { eqC(v, s.x[i], (std::string(w) + ": whole value").c_str()); return i; } CHECK(false, (std::string(w) + ": one of the particles").c_str()); return -1; }
static void one(MCPdf<ColumnVector> &p, const WS &s) { WS q = s.norm(); Sample<ColumnVector> o; rng_reset(); CHECK(p.SampleFrom(o), "sampling succeeds"); CHECK(rng_count() == 1, "one draw per sample"); if (rng_count() == 1) checkPick(q.w, rng_draw(0), which(o.ValueGet(), s, "sampled"), "sampled particle"); }
CASE(single) { int n = sym_int("n", 1, 4), d = sym_int("d", 1, 2); WS s = ids(n, d); MCPdf<ColumnVector> p(n, d); p.ListOfSamplesSet(toW(s)); one(p, s); eqMC(p, s.norm(), "sampling leaves the density", false); REACH("end"); }
CASE(zeros) { int n = sym_int("n", 2, 4); WS s = ids(n, 1); bool any = false; for (int i = 0; i < n; i++) { if (sym_int("nz", 0, 1)) { ASSUME_GT(s.w[i], 0.0); any = true; } else s.w[i] = 0.0; } ASSUME(any); MCPdf<ColumnVector> p(n, 1); p.ListOfSamplesSet(toW(s)); one(p, s); REACH("end"); }
CASE(unweighted) { int n = sym_int("n", 1, 5); WS s = ids(n, 1); for (double &v : s.w) v = 1.0; MCPdf<ColumnVector> p(n, 1); p.ListOfSamplesSet(toU(s)); one(p, s); REACH("end"); }
static void draws(int n, int k) { WS s = ids(n, 1), q = s.norm(); MCPdf<ColumnVector> p(n, 1); p.ListOfSamplesSet(toW(s)); std::vector<Sample<ColumnVector> > L(sym_int("old", 0, 2)); rng_reset(); CHECK(p.SampleFrom(L, k, SampleMthd::DEFAULT, NULL), "sampling succeeds"); CHECK((int)L.size() == k && rng_count() == k, "requested number of samples"); if ((int)L.size() == k && rng_count() == k) for (int i = 0; i < k; i++) checkPick(q.w, rng_draw(i), which(L[i].ValueGet(), s, "sampled"), "sampled particle in a list"); REACH("end"); }
CASE(list_2) { draws(2, sym_int("k", 1, 3)); }
CASE(list_3) { draws(3, 2); }
static void ripley(int n, int k, bool symp) { WS s = ids(n, 1); if (!symp) for (int i = 0; i < n; i++) s.w[i] = 1.0 + i % 2; WS q = s.norm(); MCPdf<ColumnVector> p(n, 1); p.ListOfSamplesSet(toW(s)); std::vector<Sample<ColumnVector> > L(sym_int("old", 0, 1)); rng_reset(); CHECK(p.SampleFrom(L, k, SampleMthd::RIPLEY, NULL), "sampling succeeds"); CHECK((int)L.size() == k && rng_count() == k, "requested number of samples"); if ((int)L.size() != k || rng_count() != k) return; Vd u(k); for (int i = 0; i < k; i++) u[i] = rng_draw(i); u = ordered(u); for (int i = 0; i < k; i++) checkPick(q.w, u[i], which(L[i].ValueGet(), s, "sampled"), "ordered sampling"); REACH("end"); }
CASE(ripley_1) { ripley(sym_int("n", 1, 4), 1, true); }
CASE(ripley_2) { ripley(sym_int("n", 1, 3), 2, true); }
CASE(ripley_3) { ripley(sym_int("n", 1, 3), 3, false); }
static void route(MCPdf<ColumnVector> &p, const WS &s) { // one of the three ways to draw
  int r = sym_int("route", 0, 2); if (!r) { one(p, s); return; } int k = r == 1 ? 2 : 1; WS q = s.norm(); std::vector<Sample<ColumnVector> > L; rng_reset(); CHECK(p.SampleFrom(L, k, r == 1 ? SampleMthd::DEFAULT : SampleMthd::RIPLEY, NULL), "sampling succeeds"); CHECK((int)L.size() == k && rng_count() == k, "requested number of samples"); if ((int)L.size() == k && rng_count() == k) for (int i = 0; i < k; i++) checkPick(q.w, rng_draw(i), which(L[i].ValueGet(), s, "sampled"), "sampled particle in a list"); }
CASE(follows) { // the sampler follows every change of the sample set
  MCPdf<ColumnVector> p(2, 1); WS s = ids(2, 1); p.ListOfSamplesSet(toW(s)); for (int k = 0; k < 2; k++) { int op = sym_int("op", 0, 5); if (op == 0) { s = ids(sym_int("n", 1, 3), 1); p.ListOfSamplesSet(toW(s)); } else if (op == 1) { s = ids(s.size(), 1); p.ListOfSamplesUpdate(toW(s)); } else if (op == 2) { Sample<ColumnVector> o; rng_reset(); rng_queue(0.5); p.SampleFrom(o); std::vector<Sample<ColumnVector> > l; rng_reset(); rng_queue(0.25); rng_queue(0.75); p.SampleFrom(l, 2, sym_int("ordered", 0, 1) ? SampleMthd::RIPLEY : SampleMthd::DEFAULT, NULL); rng_reset(); } else if (op == 3) { s = ids(sym_int("n", 1, 3), 1); for (double &v : s.w) v = 1.0; p.ListOfSamplesSet(toU(s)); } else if (op == 4) { s = ids(s.size(), 1); for (double &v : s.w) v = 1.0; p.ListOfSamplesUpdate(toU(s)); } else { MCPdf<ColumnVector> q(p); WS t = ids(3, 1); p.ListOfSamplesSet(toW(t)); p = q; } } route(p, s); REACH("end"); }
CASE(copies) { int n = sym_int("n", 1, 2); WS s = ids(n, 1), t = ids(2, 1); MCPdf<ColumnVector> p(n, 1); p.ListOfSamplesSet(toW(s)); MCPdf<ColumnVector> c(p), *k = p.Clone(); p.ListOfSamplesSet(toW(t)); one(c, s); one(*k, s); one(p, t); delete k; REACH("end"); }
CASE(discrete) { int n = sym_int("n", 1, 3); std::vector<WeightedSample<unsigned int> > L(n); Vd w; double s = 0; for (int i = 0; i < n; i++) { w.push_back(sym_real("w")); ASSUME_GE(w[i], 0.0); s = s + w[i]; L[i].ValueSet(3 + 2 * i); L[i].WeightSet(w[i]); } ASSUME_GT(s, 0.0); for (double &x : w) x = x / s; MCPdf<unsigned int> p(n, 1); p.ListOfSamplesSet(L); Sample<unsigned int> o; rng_reset(); CHECK(p.SampleFrom(o), "sampling succeeds"); int v = o.ValueGet(); CHECK(v >= 3 && (v - 3) % 2 == 0, "one of the particles"); if (rng_count() == 1) checkPick(w, rng_draw(0), (v - 3) / 2, "sampled discrete particle"); else CHECK(false, "one draw"); REACH("end"); }
CASE(unsupported) { double x = sym_real("x"); WS s; s.x.push_back(Vd(1, x)); s.w.push_back(1.0); MCPdf<ColumnVector> p(1, 1); p.ListOfSamplesSet(toW(s)); Sample<ColumnVector> o; std::vector<Sample<ColumnVector> > L; CHECK(!p.SampleFrom(o, SampleMthd::CHOLESKY, NULL) && !p.SampleFrom(L, 2, SampleMthd::CHOLESKY, NULL), "unsupported method reports failure"); REACH("end"); }
CASE_T(single_8) { int n = sym_int("n", 5, 8); WS s = ids(n, 1); MCPdf<ColumnVector> p(n, 1); p.ListOfSamplesSet(toW(s)); one(p, s); REACH("end"); }
CASE_T(ripley_2_4) { ripley(4, 2, true); }
CASE_T(list_4) { draws(4, 3); }
CASE(sizes) { int n = sym_int("n", 5, 16), z = sym_int("zero", 0, 2); double b = sym_real("base"); WS s; for (int i = 0; i < n; i++) { s.x.push_back(Vd(1, b + i)); s.w.push_back(z == 1 && i % 3 == 0 ? 0 : z == 2 && i < n - 2 ? 0 : 1 + (i * 5) % 7); } MCPdf<ColumnVector> p(n, 1); p.ListOfSamplesSet(toW(s)); one(p, s); REACH("end"); }
CASE(long_lists) { int n = sym_int("n", 2, 4), k = sym_int("k", 4, 10), at = sym_int("at", 0, 9); ASSUME(at < k); WS s; double b = sym_real("base"); for (int i = 0; i < n; i++) { s.x.push_back(Vd(1, b + i)); s.w.push_back(1 + (i * 5) % 7); } WS q = s.norm(); MCPdf<ColumnVector> p(n, 1); p.ListOfSamplesSet(toW(s)); Vd u(k); for (int i = 0; i < k; i++) u[i] = ((i * 7) % 16) / 16.0 + 0.01; double x = sym_real("u"); ASSUME_GE(x, 0.0); ASSUME_LT(x, 1.0); u[at] = x; rng_reset(); for (double y : u) rng_queue(y); std::vector<Sample<ColumnVector> > L(sym_int("old", 0, 1) * 12); CHECK(p.SampleFrom(L, k, SampleMthd::DEFAULT, NULL), "sampling succeeds"); CHECK((int)L.size() == k && rng_count() == k, "requested number of samples"); if ((int)L.size() == k) for (int i = 0; i < k; i++) checkPick(q.w, u[i], which(L[i].ValueGet(), s, "sampled"), "sampled particle in a list"); rng_reset(); REACH("end"); }
// ordered sampling of long lists: all draws fixed but one, powers of fixed numbers in double arithmetic (hence the tolerance)
static void checkPickTol(const Vd &p, double u, int k, const char *w) { int n = p.size(); CHECK(k >= 0 && k < n, w); if (k < 0 || k >= n) return; double lo = 0; for (int i = 0; i < k; i++) lo = lo + p[i]; CHECK_LE(lo - 1e-9, u, w); CHECK_LE(u, lo + p[k] + 1e-9, w); }
CASE(ripley_long) { sym_numeric(1); int n = sym_int("n", 2, 5), k = sym_int("k", 4, 9); WS s; double b = sym_real("base"); for (int i = 0; i < n; i++) { s.x.push_back(Vd(1, b + i)); s.w.push_back(i == n - 1 ? 16.0 - n * (n - 1) / 2 : 1.0 + i); } WS q = s.norm(); MCPdf<ColumnVector> p(n, 1); p.ListOfSamplesSet(toW(s)); Vd u(k); for (int i = 0; i < k; i++) u[i] = ((i * 7) % 16) / 16.0 + 0.01; double x = sym_real("u"); ASSUME_GE(x, 0.0); ASSUME_LT(x, 1.0); u[0] = x; rng_reset(); for (double y : u) rng_queue(y); std::vector<Sample<ColumnVector> > L(sym_int("old", 0, 1) * 12); CHECK(p.SampleFrom(L, k, SampleMthd::RIPLEY, NULL), "sampling succeeds"); CHECK((int)L.size() == k && rng_count() == k, "requested number of samples"); u = ordered(u); if ((int)L.size() == k) for (int i = 0; i < k; i++) checkPickTol(q.w, u[i], which(L[i].ValueGet(), s, "sampled"), "ordered sampling"); rng_reset(); REACH("end"); }
CASE(none) { int n = sym_int("n", 1, 3); WS s = ids(n, 1); MCPdf<ColumnVector> p(n, 1); p.ListOfSamplesSet(toW(s)); std::vector<Sample<ColumnVector> > L(sym_int("old", 0, 2)); rng_reset(); CHECK(p.SampleFrom(L, 0, sym_int("ordered", 0, 1) ? SampleMthd::RIPLEY : SampleMthd::DEFAULT, NULL), "sampling succeeds"); CHECK(L.empty() && rng_count() == 0, "no samples requested"); one(p, s); REACH("end"); }
CASE(dimensionless) { int n = sym_int("n", 1, 3), d = sym_int("d", 1, 2); WS s = ids(n, d); MCPdf<ColumnVector> p; p.ListOfSamplesSet(toW(s)); one(p, s); REACH("end"); }
// far beyond the fully symbolic sizes: fixed values apart from a few free ones
CASE(big) { int n = sym_int("n", 0, 3); n = n == 0 ? 20 : n == 1 ? 33 : n == 2 ? 64 : 110; int z = sym_int("zero", 0, 1); WS s; double b = sym_real("base"); for (int i = 0; i < n; i++) { s.x.push_back(Vd(1, b + i)); s.w.push_back(z && i % 3 == 0 ? 0 : 1 + (i * 5) % 7); } MCPdf<ColumnVector> p(n, 1); p.ListOfSamplesSet(toW(s)); one(p, s); REACH("end"); }
CASE(big_lists) { int n = sym_int("n", 0, 1) ? 40 : 3, k = sym_int("k", 0, 1) ? 33 : 70, at = sym_int("at", 0, 1) ? k - 1 : k / 2; WS s; double b = sym_real("base"); for (int i = 0; i < n; i++) { s.x.push_back(Vd(1, b + i)); s.w.push_back(1 + (i * 5) % 7); } WS q = s.norm(); MCPdf<ColumnVector> p(n, 1); p.ListOfSamplesSet(toW(s)); Vd u(k); for (int i = 0; i < k; i++) u[i] = ((i * 7) % 64) / 64.0 + 0.001; double x = sym_real("u"); ASSUME_GE(x, 0.0); ASSUME_LT(x, 1.0); u[at] = x; rng_reset(); for (double y : u) rng_queue(y); std::vector<Sample<ColumnVector> > L(sym_int("old", 0, 1) * 100); CHECK(p.SampleFrom(L, k, SampleMthd::DEFAULT, NULL), "sampling succeeds"); CHECK((int)L.size() == k && rng_count() == k, "requested number of samples"); if ((int)L.size() == k) for (int i = 0; i < k; i++) checkPick(q.w, u[i], which(L[i].ValueGet(), s, "sampled"), "sampled particle in a list"); rng_reset(); REACH("end"); }
CASE(assigned) { int n = sym_int("n", 1, 3), k = sym_int("k", 1, 3); WS s = ids(n, 1), t = ids(k, 1); MCPdf<ColumnVector> p(n, 1), q(k, 1); p.ListOfSamplesSet(toW(s)); q.ListOfSamplesSet(toW(t)); q = p; if (sym_int("change", 0, 1)) p.ListOfSamplesSet(toW(t)); route(q, s); REACH("end"); }
