// Uniform distribution over a box.
#include "common.h"
#include <pdf/uniform.h>
#include "rngctl.h"
using namespace BFL;
static Vd symW(const char *p, int n) { Vd w = symV(p, n); for (double x : w) ASSUME_GT(x, 0.0); return w; }
static void dens(const Uniform &u, const Vd &c, const Vd &w, const char *tag) {
  int n = c.size(); Vd x = symV((std::string("x") + tag).c_str(), n); double p = u.ProbabilityGet(toC(x)); bool in = true; double h = 1.0; for (int i = 0; i < n; i++) { if (x[i] > c[i] + w[i] / 2.0 || x[i] < c[i] - w[i] / 2.0) in = false; h = h * w[i]; }
  if (in) CHECK_EQ(p * h, 1.0, "density inside is one over the volume"); else CHECK_EQ(p, 0.0, "density outside is zero"); eqC(u.CenterGet(), c, "center"); eqC(u.WidthGet(), w, "width");
}
static void samp(const Uniform &u, const Vd &c, const Vd &w, int k) {
  int n = c.size(); Sample<ColumnVector> s; rng_reset(); Vd z = symV("u", n); for (double x : z) { ASSUME_GE(x, 0.0); ASSUME_LT(x, 1.0); rng_queue(x); } bool ok = u.SampleFrom(s); CHECK(ok, "sampling succeeds"); CHECK(rng_unused() == 0 && rng_count() == n, "one draw per dimension"); rng_reset(); CHECK(s.ValueGet().rows() == (unsigned)n, "sample size"); if (s.ValueGet().rows() == (unsigned)n) for (int i = 0; i < n; i++) { double v = s.ValueGet()(i + 1); CHECK_EQ(v, c[i] - w[i] / 2.0 + w[i] * z[i], "sample is uniform over the interval"); CHECK_GE(v, c[i] - w[i] / 2.0, "sample above lower bound"); CHECK_LE(v, c[i] + w[i] / 2.0, "sample below upper bound"); }
  std::vector<Sample<ColumnVector> > L(sym_int("old", 0, 2)); ok = u.SampleFrom(L, k); CHECK(ok && (int)L.size() == k, "requested number of samples"); CHECK(rng_count() == k * n, "independent draws"); if ((int)L.size() == k && rng_count() == k * n) for (int j = 0; j < k; j++) for (int i = 0; i < n; i++) CHECK_EQ(L[j].ValueGet()(i + 1), c[i] - w[i] / 2.0 + w[i] * rng_draw(j * n + i), "list sample"); rng_reset();
}
CASE(density_1) { Vd c = symV("c", 1), w = symW("w", 1); const Uniform u(toC(c), toC(w)); dens(u, c, w, ""); REACH("end"); }
CASE(density_2) { Vd c = symV("c", 2), w = symW("w", 2); const Uniform u(toC(c), toC(w)); dens(u, c, w, ""); CHECK(u.DimensionGet() == 2, "dimension"); REACH("end"); }
CASE(density_3) { Vd c = symV("c", 3), w = symW("w", 3); const Uniform u(toC(c), toC(w)); dens(u, c, w, ""); CHECK(u.DimensionGet() == 3, "dimension"); REACH("end"); }
CASE(density_large) { int n = sym_int("n", 4, 6); Vd c(n, 1.0), w(n, 2.0); int i = sym_int("i", 0, 5); ASSUME(i < n); c[i] = sym_real("c"); w[i] = sym_real("w"); ASSUME_GT(w[i], 0.0); const Uniform u(toC(c), toC(w)); Vd x(n, 1.0); x[i] = sym_real("x"); double p = u.ProbabilityGet(toC(x)); double h = 1; for (double q : w) h = h * q; if (x[i] > c[i] + w[i] / 2.0 || x[i] < c[i] - w[i] / 2.0) CHECK_EQ(p, 0.0, "density outside"); else CHECK_EQ(p * h, 1.0, "density inside"); REACH("end"); }
CASE(sampling) { int n = sym_int("n", 1, 3); Vd c = symV("c", n), w = symW("w", n); const Uniform u(toC(c), toC(w)); samp(u, c, w, sym_int("k", 1, 3)); REACH("end"); }
CASE(set_later) { int n = sym_int("n", 1, 3), how = sym_int("how", 0, 2); Vd c = symV("c", n), w = symW("w", n); Uniform a, b(n), d(toC(Vd(n, 0.0)), toC(Vd(n, 1.0))); Uniform &u = how == 0 ? a : how == 1 ? b : d; u.UniformSet(toC(c), toC(w)); CHECK(u.DimensionGet() == (unsigned)n, "dimension"); samp(u, c, w, 2); REACH("end"); }
CASE(set_later_density) { int n = sym_int("n", 1, 2), how = sym_int("how", 0, 2); Vd c = symV("c", n), w = symW("w", n); Uniform a, b(n), d(toC(Vd(n, 0.0)), toC(Vd(n, 1.0))); Uniform &u = how == 0 ? a : how == 1 ? b : d; u.UniformSet(toC(c), toC(w)); dens(u, c, w, ""); REACH("end"); }
CASE(history) { int n = sym_int("n", 1, 2); Vd c = symV("c", n), w = symW("w", n); Uniform u(toC(c), toC(w)); for (int k = 0; k < 3; k++) { int op = sym_int("op", 0, 2); if (op == 0) { c = symV("c'", n); w = symW("w'", n); u.UniformSet(toC(c), toC(w)); } else if (op == 1) u.ProbabilityGet(toC(c)); else { Sample<ColumnVector> s; u.SampleFrom(s); std::vector<Sample<ColumnVector> > l; u.SampleFrom(l, 2); rng_reset(); } } Vd x = c; double h = 1; for (double q : w) h = h * q; CHECK_EQ((double)u.ProbabilityGet(toC(x)) * h, 1.0, "density at the center after a history"); x[0] = c[0] + w[0]; CHECK_EQ(u.ProbabilityGet(toC(x)), 0.0, "density outside after a history"); x[0] = c[0] - w[0] / 2.0; CHECK_EQ((double)u.ProbabilityGet(toC(x)) * h, 1.0, "density at the edge"); samp(u, c, w, 2); eqC(u.CenterGet(), c, "center"); eqC(u.WidthGet(), w, "width"); REACH("end"); }
CASE(copies) { int n = sym_int("n", 1, 2); Vd c = symV("c", n), w = symW("w", n), d = symV("d", n), v = symW("v", n); Uniform u(toC(c), toC(w)), k(u); Uniform *q = u.Clone(); u.UniformSet(toC(d), toC(v)); eqC(k.CenterGet(), c, "copy center"); eqC(q->CenterGet(), c, "clone center"); eqC(q->WidthGet(), w, "clone width"); eqC(u.CenterGet(), d, "original changed"); double h = 1; for (double x : w) h = h * x; CHECK_EQ((double)k.ProbabilityGet(toC(c)) * h, 1.0, "copy density"); CHECK_EQ((double)q->ProbabilityGet(toC(c)) * h, 1.0, "clone density"); delete q; REACH("end"); }
CASE(unsupported) { Vd c = symV("c", 2), w = symW("w", 2); Uniform u(toC(c), toC(w)); Sample<ColumnVector> s; std::vector<Sample<ColumnVector> > L; CHECK(!u.SampleFrom(s, SampleMthd::CHOLESKY), "unsupported method reports failure"); CHECK(!u.SampleFrom(L, 2, SampleMthd::RIPLEY), "unsupported method reports failure"); REACH("end"); }
CASE_T(density_4) { Vd c = symV("c", 4), w = symW("w", 4); const Uniform u(toC(c), toC(w)); dens(u, c, w, ""); REACH("end"); }
CASE(sizes) { int n = sym_int("n", 4, 8); Vd c = symV("c", n), w = symW("w", n); const Uniform u(toC(c), toC(w)); samp(u, c, w, sym_int("k", 4, 8)); double h = 1; for (double q : w) h = h * q; CHECK_EQ((double)u.ProbabilityGet(toC(c)) * h, 1.0, "density at the centre"); REACH("end"); }
CASE(none) { Vd c = symV("c", 2), w = symW("w", 2); const Uniform u(toC(c), toC(w)); std::vector<Sample<ColumnVector> > L(sym_int("old", 0, 2)); rng_reset(); CHECK(u.SampleFrom(L, 0), "sampling succeeds"); CHECK(L.empty() && rng_count() == 0, "no samples requested"); samp(u, c, w, 1); REACH("end"); }
// far beyond the fully symbolic sizes: fixed values apart from a few free ones
CASE(big) { int n = sym_int("n", 0, 1) ? 12 : 20; Vd c(n, 1.0), w(n, 2.0); int i = sym_int("i", 0, 1) ? n - 1 : n / 2; c[i] = sym_real("c"); w[i] = sym_real("w"); ASSUME_GT(w[i], 0.0); const Uniform u(toC(c), toC(w)); samp(u, c, w, sym_int("k", 0, 1) ? 1 : 33); double h = 1; for (double q : w) h = h * q; CHECK_EQ((double)u.ProbabilityGet(toC(c)) * h, 1.0, "density at the centre"); Vd x = c; x[i] = c[i] + w[i]; CHECK_EQ((double)u.ProbabilityGet(toC(x)), 0.0, "density outside"); REACH("end"); }
// copied and assigned boxes
CASE(assigned) { int n = sym_int("n", 1, 2), k = sym_int("k", 1, 2), how = sym_int("how", 0, 2); Vd c = symV("c", n), w = symW("w", n); Uniform *u = new Uniform(toC(c), toC(w)), *o; if (how == 0) { o = new Uniform(toC(Vd(k, 3.0)), toC(Vd(k, 2.0))); *o = *u; } else if (how == 1) o = new Uniform(*u); else o = u->Clone(); if (sym_int("dead", 0, 1)) { delete u; u = 0; } else u->UniformSet(toC(Vd(n, 7.0)), toC(Vd(n, 1.0))); CHECK((int)o->DimensionGet() == n, "dimension"); if (sym_int("what", 0, 1)) samp(*o, c, w, 1); else dens(*o, c, w, ""); delete o; delete u; REACH("end"); }
