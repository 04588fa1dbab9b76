// Gaussian: density formula, moments, and no stale state over any sequence of parameter changes and queries.
#include "common.h"
#include <pdf/gaussian.h>
using namespace BFL;
static double twopi(int n) { volatile double p = 2.0; double t = p * M_PI, r = 1.0; for (int i = 0; i < n; i++) r = r * t; return r; }
static double dens(const Vd &mu, const Md &S, const Vd &x) { Vd d = add(x, mu, -1); Md I = inv(S); double q = dot(d, mul(I, d)); return exp(-0.5 * q) / sqrt(twopi(mu.size()) * det(S)); }
static Md conc(int n, int s) { Md r(n, Vd(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] = i == j ? 4 + (i + s) % 3 : ((i + j + s) % 3 - 1) * 0.5; return r; }
static Md part(int n, int s, const char *p) { Md r = conc(n, s); double v = sym_real(p); r[n - 1][n - 1] = r[n - 1][n - 1] + v * v; return r; }
CASE(density_1) { Vd m = symV("m", 1), x = symV("x", 1); Md S = symSPD("L", 1); const Gaussian g(toC(m), toS(S)); CHECK_EQ(g.ProbabilityGet(toC(x)), dens(m, S, x), "density"); eqC(g.ExpectedValueGet(), m, "mean"); eqS(g.CovarianceGet(), S, "covariance"); REACH("end"); }
CASE(density_2) { Vd m = symV("m", 2), x = symV("x", 2); Md S = symSPD("L", 2); const Gaussian g(toC(m), toS(S)); CHECK_EQ(g.ProbabilityGet(toC(x)), dens(m, S, x), "density"); eqC(g.ExpectedValueGet(), m, "mean"); eqS(g.CovarianceGet(), S, "covariance"); CHECK(g.DimensionGet() == 2, "dimension"); REACH("end"); }
CASE(density_n) { int n = sym_int("n", 3, 5); Vd m = symV("m", n), x = symV("x", n); Md S = conc(n, sym_int("s", 0, 1)); const Gaussian g(toC(m), toS(S)); CHECK_EQ(g.ProbabilityGet(toC(x)), dens(m, S, x), "density"); eqC(g.ExpectedValueGet(), m, "mean"); eqS(g.CovarianceGet(), S, "covariance"); CHECK(g.DimensionGet() == (unsigned)n, "dimension"); REACH("end"); }
CASE(density_3_symbolic) { int n = 3; Vd m(n, 0.0), x = symV("x", n); m[1] = sym_real("m"); Md S = part(n, 0, "v"); const Gaussian g(toC(m), toS(S)); CHECK_EQ(g.ProbabilityGet(toC(x)), dens(m, S, x), "density"); REACH("end"); }
CASE(positive_symmetric) { int n = sym_int("n", 1, 3); Vd m = symV("m", n), d = symV("d", n); Md S = n == 1 ? symSPD("L", 1) : conc(n, 0); Gaussian g(toC(m), toS(S)); double a = g.ProbabilityGet(toC(add(m, d))), b = g.ProbabilityGet(toC(add(m, d, -1))), t = g.ProbabilityGet(toC(m)); CHECK_EQ(a, b, "density is symmetric about the mean"); CHECK_GT(a, 0.0, "density is positive"); if (n == 1) CHECK_LE(a, t, "density is largest at the mean"); REACH("end"); }
// one operation of a history; kept: current mu, S
static void hist(int n, int len, bool symcov) {
  Vd mu = symV("m", n); Md S = symcov ? symSPD("L", n) : conc(n, 0); Gaussian g(toC(mu), toS(S)); Vd x = symV("x", n); int version = 0;
  for (int k = 0; k < len; k++) { int op = sym_int("op", 0, 3);
    if (op == 0) { mu = symV("mu'", n); g.ExpectedValueSet(toC(mu)); }
    else if (op == 1) { S = symcov ? symSPD("L'", n) : conc(n, ++version); g.CovarianceSet(toS(S)); }
    else if (op == 2) { CHECK_EQ(g.ProbabilityGet(toC(x)), dens(mu, S, x), "density in a history"); eqC(g.ExpectedValueGet(), mu, "mean in a history"); eqS(g.CovarianceGet(), S, "covariance in a history"); }
    else { Sample<ColumnVector> s; g.SampleFrom(s); } }
  Vd y = symV("y", n); CHECK_EQ(g.ProbabilityGet(toC(y)), dens(mu, S, y), "density after a history"); CHECK_EQ(g.ProbabilityGet(toC(y)), dens(mu, S, y), "same density when asked again"); eqC(g.ExpectedValueGet(), mu, "mean after a history"); eqS(g.CovarianceGet(), S, "covariance after a history"); REACH("end");
}
CASE(history_1) { hist(1, 4, true); }
CASE(history_2) { hist(2, 3, true); }
CASE(history_3) { hist(3, 3, false); }
CASE(dimensionless) { // built without dimension, parameters set later
  int n = sym_int("n", 1, 3), o = sym_int("order", 0, 1); Vd mu = symV("m", n), x = symV("x", n); Md S = n == 1 ? symSPD("L", 1) : conc(n, 1); Gaussian g; if (o) { g.ExpectedValueSet(toC(mu)); g.CovarianceSet(toS(S)); } else { g.CovarianceSet(toS(S)); g.ExpectedValueSet(toC(mu)); } CHECK(g.DimensionGet() == (unsigned)n, "dimension follows parameters"); CHECK_EQ(g.ProbabilityGet(toC(x)), dens(mu, S, x), "density"); eqC(g.ExpectedValueGet(), mu, "mean"); Gaussian h(n); h.CovarianceSet(toS(S)); h.ExpectedValueSet(toC(mu)); CHECK_EQ(h.ProbabilityGet(toC(x)), dens(mu, S, x), "density"); REACH("end");
}
CASE(copies) { // copies taken before or after the cached factor exists
  int n = sym_int("n", 1, 2); Vd mu = symV("m", n), x = symV("x", n), m2 = symV("m'", n); Md S = symSPD("L", n), T = symSPD("K", n); Gaussian g(toC(mu), toS(S)); if (sym_int("warm", 0, 1)) CHECK_EQ(g.ProbabilityGet(toC(x)), dens(mu, S, x), "density"); Gaussian c(g); Gaussian *k = g.Clone(); Gaussian a; a = g;
  int which = sym_int("which", 0, 1); if (which == 0) { g.CovarianceSet(toS(T)); g.ExpectedValueSet(toC(m2)); CHECK_EQ(g.ProbabilityGet(toC(x)), dens(m2, T, x), "changed original"); CHECK_EQ(c.ProbabilityGet(toC(x)), dens(mu, S, x), "copy unaffected"); CHECK_EQ(k->ProbabilityGet(toC(x)), dens(mu, S, x), "clone unaffected"); CHECK_EQ(a.ProbabilityGet(toC(x)), dens(mu, S, x), "assigned unaffected"); }
  else { c.CovarianceSet(toS(T)); k->CovarianceSet(toS(T)); a.CovarianceSet(toS(T)); a.ExpectedValueSet(toC(m2)); CHECK_EQ(c.ProbabilityGet(toC(x)), dens(mu, T, x), "changed copy"); CHECK_EQ(k->ProbabilityGet(toC(x)), dens(mu, T, x), "changed clone"); CHECK_EQ(a.ProbabilityGet(toC(x)), dens(m2, T, x), "changed assigned"); CHECK_EQ(g.ProbabilityGet(toC(x)), dens(mu, S, x), "original unaffected"); } delete k; REACH("end");
}
CASE_T(history_1_long) { hist(1, 6, true); }
CASE_T(history_2_long) { hist(2, 5, true); }
CASE_T(history_4) { hist(4, 4, false); }
CASE_T(density_large) { int n = sym_int("n", 6, 7); Vd m = symV("m", n), x(n, 1.0); x[n - 1] = sym_real("x"); Md S = conc(n, sym_int("s", 0, 2)); const Gaussian g(toC(m), toS(S)); CHECK_EQ(g.ProbabilityGet(toC(x)), dens(m, S, x), "density"); REACH("end"); }
CASE(sizes) { int n = sym_int("n", 5, 8); Vd m = symV("m", n), x(n, 1.0); x[n - 1] = sym_real("x"); x[0] = sym_real("x0"); Md S(n, Vd(n, 0.0)); for (int i = 0; i < n; i++) { S[i][i] = i % 2 ? 4 : 1; if (i) S[i][i - 1] = S[i - 1][i] = 0.5; } Gaussian g(toC(m), toS(S)); double dt = 1, pr = 1; { double a = 1, b = S[0][0]; for (int i = 1; i < n; i++) { double c = S[i][i] * b - S[i][i - 1] * S[i][i - 1] * a; a = b; b = c; } dt = b; (void)pr; } Md I = ident(n); { Md M = S; for (int k = 0; k < n; k++) { double p = M[k][k]; for (int j = 0; j < n; j++) { M[k][j] /= p; I[k][j] /= p; } for (int i = 0; i < n; i++) if (i != k) { double f = M[i][k]; for (int j = 0; j < n; j++) { M[i][j] -= f * M[k][j]; I[i][j] -= f * I[k][j]; } } } } Vd d = add(x, m, -1); double e = exp(-0.5 * dot(d, mul(I, d))) / sqrt(twopi(n) * dt); CHECK_EQ(g.ProbabilityGet(toC(x)), e, "density"); Gaussian h(g); CHECK_EQ(h.ProbabilityGet(toC(x)), e, "density of a copy"); eqC(g.ExpectedValueGet(), m, "mean"); eqS(g.CovarianceGet(), S, "covariance"); REACH("end"); }
// far beyond the fully symbolic sizes: fixed values apart from a few free ones
CASE(big) { int n = sym_int("n", 0, 1) ? 11 : 16; Vd m(n, 0.5), x(n, 1.0); m[0] = sym_real("m"); m[n - 1] = sym_real("m"); x[n - 1] = sym_real("x"); Md S(n, Vd(n, 0.0)), I(n, Vd(n, 0.0)); for (int i = 0; i < n; i++) { S[i][i] = i % 2 ? 4 : 1; I[i][i] = i % 2 ? 0.25 : 1; } Gaussian g(toC(m), toS(S)); double dt = 1; for (int i = 0; i < n; i++) dt = dt * S[i][i]; Vd d = add(x, m, -1); CHECK_EQ(g.ProbabilityGet(toC(x)), exp(-0.5 * dot(d, mul(I, d))) / sqrt(twopi(n) * dt), "density"); eqC(g.ExpectedValueGet(), m, "mean"); eqS(g.CovarianceGet(), S, "covariance"); REACH("end"); }
