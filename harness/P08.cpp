// Gaussian sampling: an affine image of independent standard normal draws whose covariance is the distribution's.
#include "common.h"
#include <pdf/gaussian.h>
#include "rngctl.h"
using namespace BFL;
static Md conc(int n, int s) { Md r(n, Vd(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] = i == j ? 4 + (i + s) % 3 : ((i + j + s) % 3 - 1) * 0.5; return r; }
static Vd draw1(Gaussian &g, const Vd &z, const SampleMthd m, bool &ok) { rng_reset(); for (double x : z) rng_queue(x); Sample<ColumnVector> s; ok = g.SampleFrom(s, m); CHECK(rng_unused() == 0 && rng_count() == (int)z.size(), "one standard draw per dimension"); Vd r; for (unsigned i = 1; i <= s.ValueGet().rows(); i++) r.push_back(s.ValueGet()(i)); CHECK(r.size() == z.size(), "sample dimension"); r.resize(z.size()); rng_reset(); return r; }
static void one(Gaussian &g, const Vd &mu, const Md &S, int tag) {
  int n = mu.size(); SampleMthd m = tag ? SampleMthd::CHOLESKY : SampleMthd::DEFAULT; bool ok; Vd z0(n, 0.0); Vd c = draw1(g, z0, m, ok); CHECK(ok, "sampling succeeds"); for (int i = 0; i < n; i++) CHECK_EQ(c[i], mu[i], "zero draws give the mean");
  Md Am(n, Vd(n)); for (int j = 0; j < n; j++) { Vd e(n, 0.0); e[j] = 1; Vd v = draw1(g, e, m, ok); for (int i = 0; i < n; i++) Am[i][j] = v[i] - mu[i]; }
  Md P = mul(Am, tr(Am)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK_EQ(P[i][j], S[i][j], "covariance of the samples");
  Vd z = symV("z", n); Vd v = draw1(g, z, m, ok); Vd w = add(mul(Am, z), mu); for (int i = 0; i < n; i++) CHECK_EQ(v[i], w[i], "samples are affine in the draws"); eqC(g.ExpectedValueGet(), mu, "sampling leaves the mean"); eqS(g.CovarianceGet(), S, "sampling leaves the covariance");
}
CASE(one_1) { Vd mu = symV("m", 1); Md S = symSPD("L", 1, 1e-3); Gaussian g(toC(mu), toS(S)); one(g, mu, S, sym_int("method", 0, 1)); REACH("end"); }
CASE(one_2) { Vd mu = symV("m", 2); Md S = symSPD("L", 2, 1e-3); Gaussian g(toC(mu), toS(S)); one(g, mu, S, sym_int("method", 0, 1)); REACH("end"); }
CASE(one_3) { Vd mu = symV("m", 3); Md S = symSPD("L", 3, 1e-3); Gaussian g(toC(mu), toS(S)); one(g, mu, S, sym_int("method", 0, 1)); REACH("end"); }
CASE(one_n) { int n = sym_int("n", 4, 5); Vd mu = symV("m", n); Md S(n, Vd(n, 0.0)); for (int i = 0; i < n; i++) { double s = sym_real(nm("s", i).c_str()); ASSUME_GE(s, 0.001); S[i][i] = s * s; if (i) { double c = sym_real("c"); S[i][0] = S[0][i] = c * S[0][0]; for (int j = 1; j <= i; j++) { double v = j == i ? c * c * S[0][0] : c * S[j][0]; S[i][j] = S[i][j] + v; if (j != i) S[j][i] = S[i][j]; } } } Gaussian g(toC(mu), toS(S)); one(g, mu, S, 0); REACH("end"); }
static void many(int n, int k, bool sym) {
  Vd mu = symV("m", n); Md S = sym ? symSPD("L", n, 1e-3) : conc(n, 0); Gaussian g(toC(mu), toS(S)); SampleMthd m = sym_int("method", 0, 1) ? SampleMthd::CHOLESKY : SampleMthd::DEFAULT; bool ok; Md Am(n, Vd(n)); for (int j = 0; j < n; j++) { Vd e(n, 0.0); e[j] = 1; Vd v = draw1(g, e, m, ok); for (int i = 0; i < n; i++) Am[i][j] = v[i] - mu[i]; }
  std::vector<Sample<ColumnVector> > L(sym_int("old", 0, 3)); rng_reset(); Md z = symM("z", k, n); for (auto &r : z) for (double x : r) rng_queue(x); ok = g.SampleFrom(L, k, m); CHECK(ok, "sampling succeeds"); CHECK((int)L.size() == k, "requested number of samples"); CHECK(rng_unused() == 0 && rng_count() == k * n, "independent draws for every sample"); rng_reset(); if ((int)L.size() == k) for (int s = 0; s < k; s++) eqC(L[s].ValueGet(), add(mul(Am, z[s]), mu), "each sample of the list is drawn as a single one"); REACH("end");
}
CASE(many_1) { many(1, sym_int("k", 1, 4), true); }
CASE(many_2) { many(2, sym_int("k", 1, 3), true); }
CASE(many_3) { many(3, 2, true); }
static void listed(Gaussian &g, const Vd &mu, const Md &S) { // the mean and covariance as seen through one list
  int n = mu.size(); SampleMthd m = sym_int("method", 0, 1) ? SampleMthd::CHOLESKY : SampleMthd::DEFAULT; std::vector<Sample<ColumnVector> > L; rng_reset(); for (int s = 0; s <= n; s++) for (int i = 0; i < n; i++) rng_queue(s == i + 1 ? 1.0 : 0.0); CHECK(g.SampleFrom(L, n + 1, m) && (int)L.size() == n + 1 && rng_unused() == 0, "list of samples"); rng_reset(); if ((int)L.size() != n + 1) return; eqC(L[0].ValueGet(), mu, "zero draws give the mean");
  Md A(n, Vd(n)); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) A[i][j] = L[j + 1].ValueGet()(i + 1) - mu[i]; Md P = mul(A, tr(A)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK_EQ(P[i][j], S[i][j], "covariance of the samples");
}
static void history(int n) { // parameters change between draws
  Vd mu = symV("m", n); Md S = symSPD("L", n, 1e-3); Gaussian g(toC(mu), toS(S)); bool ok; for (int k = 0; k < 3; k++) { int op = sym_int("op", 0, 4); if (op == 0) { mu = symV("m'", n); g.ExpectedValueSet(toC(mu)); } else if (op == 1) { S = symSPD("L'", n, 1e-3); g.CovarianceSet(toS(S)); } else if (op == 2) { Vd z(n, 0.5); draw1(g, z, SampleMthd::DEFAULT, ok); } else if (op == 3) g.ProbabilityGet(toC(mu)); else { std::vector<Sample<ColumnVector> > l; g.SampleFrom(l, 2); rng_reset(); } } if (sym_int("last", 0, 1)) listed(g, mu, S); else one(g, mu, S, 0); REACH("end");
}
CASE(history_1) { history(1); }
CASE(history_2) { history(2); }
CASE(dimensionless) { int n = sym_int("n", 1, 3); Vd mu = symV("m", n); Md S = n < 3 ? symSPD("L", n, 1e-3) : symSPD("L", n, 1e-3); Gaussian g; if (sym_int("order", 0, 1)) { g.ExpectedValueSet(toC(mu)); g.CovarianceSet(toS(S)); } else { g.CovarianceSet(toS(S)); g.ExpectedValueSet(toC(mu)); } one(g, mu, S, 0); REACH("end"); }
CASE(semidefinite) { int n = sym_int("n", 1, 4); Vd mu = symV("m", n); Md S(n, Vd(n, 0.0)); for (int i = 0; i < n; i++) if (sym_int("nz", 0, 1)) { double d = sym_real(nm("d", i).c_str()); ASSUME_GE(d, 1e-3); S[i][i] = d * d; } Gaussian g(toC(mu), toS(S)); one(g, mu, S, 0); REACH("end"); }
CASE(independent_copies) { int n = 2; Vd mu = symV("m", n), m2 = symV("n", n); Md S = symSPD("L", n, 1e-3), T = symSPD("K", n, 1e-3); Gaussian g(toC(mu), toS(S)); bool ok; Vd z(n, 1.0); draw1(g, z, SampleMthd::DEFAULT, ok); Gaussian c(g); c.CovarianceSet(toS(T)); c.ExpectedValueSet(toC(m2)); draw1(c, z, SampleMthd::DEFAULT, ok); one(g, mu, S, 0); one(c, m2, T, 0); REACH("end"); }
CASE(unsupported) { Vd mu = symV("m", 2); Gaussian g(toC(mu), toS(conc(2, 0))); Sample<ColumnVector> s; std::vector<Sample<ColumnVector> > L; CHECK(!g.SampleFrom(s, SampleMthd::BOXMULLER), "an unsupported method reports failure"); CHECK(!g.SampleFrom(L, 2, SampleMthd::BOXMULLER), "an unsupported method reports failure"); CHECK(!g.SampleFrom(s, SampleMthd::RIPLEY), "an unsupported method reports failure"); REACH("end"); }
CASE_T(one_4) { Vd mu = symV("m", 4); Md S = symSPD("L", 4, 1e-3); Gaussian g(toC(mu), toS(S)); one(g, mu, S, 0); REACH("end"); }
CASE_T(many_long) { many(2, 6, true); }
CASE_T(history_3) { history(3); }
CASE(sizes) { int n = sym_int("n", 5, 8); Vd mu = symV("m", n); Md L(n, Vd(n, 0.0)); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) L[i][j] = i == j ? 1 + i % 3 : (i * 2 + j) % 5 - 2; Md S = mul(L, tr(L)); Gaussian g(toC(mu), toS(S)); one(g, mu, S, sym_int("method", 0, 1)); REACH("end"); }
CASE(long_lists) { int n = sym_int("n", 1, 3), k = sym_int("k", 5, 12); Vd mu = symV("m", n); Gaussian g(toC(mu), toS(ident(n))); std::vector<Sample<ColumnVector> > L(sym_int("old", 0, 1) * 9); rng_reset(); CHECK(g.SampleFrom(L, k, sym_int("method", 0, 1) ? SampleMthd::CHOLESKY : SampleMthd::DEFAULT), "sampling succeeds"); CHECK((int)L.size() == k && rng_count() == k * n, "requested number of samples, fresh draws"); if ((int)L.size() == k && rng_count() == k * n) for (int s = 0; s < k; s++) for (int i = 0; i < n; i++) { CHECK(L[s].ValueGet().rows() == (unsigned)n, "dimension"); CHECK_EQ(L[s].ValueGet()(i + 1), mu[i] + rng_draw(s * n + i), "each sample has its own draws"); } rng_reset(); REACH("end"); }
CASE(none) { Vd mu = symV("m", 2); Gaussian g(toC(mu), toS(conc(2, 0))); std::vector<Sample<ColumnVector> > L(sym_int("old", 0, 2)); rng_reset(); CHECK(g.SampleFrom(L, 0), "sampling succeeds"); CHECK(L.empty() && rng_count() == 0, "no samples requested"); one(g, mu, conc(2, 0), 0); REACH("end"); }
// far beyond the fully symbolic sizes: fixed values apart from a few free ones
CASE(big) { int n = sym_int("n", 0, 1) ? 12 : 20; Vd mu = symV("m", n); Md L(n, Vd(n, 0.0)); for (int i = 0; i < n; i++) for (int j = i < 2 ? 0 : i - 2; j <= i; j++) L[i][j] = i == j ? 1 + i % 3 : (i * 2 + j) % 5 - 2; Md S = mul(L, tr(L)); Gaussian g(toC(mu), toS(S)); one(g, mu, S, sym_int("method", 0, 1)); REACH("end"); }
// copies and assigned Gaussians sample like their source, which may change afterwards
CASE(copies) { int n = sym_int("n", 1, 2), k = sym_int("k", 1, 2), how = sym_int("how", 0, 2), m = sym_int("method", 0, 1); Vd mu = symV("m", n); Md S = symSPD("L", n, 1e-3); Gaussian g(toC(mu), toS(S)), *c = 0; bool ok; if (sym_int("warm", 0, 1)) draw1(g, Vd(n, 0.5), m ? SampleMthd::CHOLESKY : SampleMthd::DEFAULT, ok); if (how == 0) c = new Gaussian(g); else if (how == 1) c = g.Clone(); else { c = new Gaussian(toC(Vd(k, 1.0)), toS(conc(k, 1))); draw1(*c, Vd(k, 0.5), m ? SampleMthd::CHOLESKY : SampleMthd::DEFAULT, ok); *c = g; } if (sym_int("change", 0, 1)) { g.ExpectedValueSet(toC(Vd(n, 2.0))); g.CovarianceSet(toS(conc(n, 2))); draw1(g, Vd(n, 0.5), m ? SampleMthd::CHOLESKY : SampleMthd::DEFAULT, ok); } one(*c, mu, S, m); delete c; REACH("end"); }
