// Conditional Gaussians: mean, covariance, Jacobian, density and sampling follow the current arguments, matrices and noise.
#include "common.h"
#include <pdf/linearanalyticconditionalgaussian.h>
#include <pdf/conditionalgaussian_additivenoise.h>
#include "gauss.h"
using namespace BFL;
struct Spec { std::vector<Md> A; Vd m; Md S; std::vector<Vd> a; Vd mean() const { Vd r = m; for (size_t i = 0; i < A.size(); i++) r = add(r, mul(A[i], a[i])); return r; } };
static Spec mk(LinearAnalyticConditionalGaussian *&p, int n, std::vector<int> ad, Md S) { Spec s; s.m = symV("m", n); s.S = S; std::vector<Matrix> R; for (size_t i = 0; i < ad.size(); i++) { s.A.push_back(symM(("A" + std::to_string(i)).c_str(), n, ad[i])); s.a.push_back(Vd(ad[i], 0.0)); R.push_back(toM(s.A.back())); } Gaussian g(toC(s.m), toS(S)); if (R.size() == 1 && sym_int("ctor", 0, 1)) p = new LinearAnalyticConditionalGaussian(R[0], g); else p = new LinearAnalyticConditionalGaussian(R, g); g.ExpectedValueSet(toC(Vd(n, 55.0))); return s; }
static void check(LinearAnalyticConditionalGaussian &p, const Spec &s) { int n = s.m.size(); CHECK(p.DimensionGet() == (unsigned)n && p.NumConditionalArgumentsGet() == s.A.size(), "sizes"); eqC(p.ExpectedValueGet(), s.mean(), "conditional mean"); eqS(p.CovarianceGet(), s.S, "conditional covariance"); for (size_t i = 0; i < s.A.size(); i++) { eqM(p.dfGet(i), s.A[i], "Jacobian"); eqM(p.MatrixGet(i), s.A[i], "matrix"); eqC(p.ConditionalArgumentGet(i), s.a[i], "argument"); } eqC(p.AdditiveNoiseMuGet(), s.m, "noise mean"); eqS(p.AdditiveNoiseSigmaGet(), s.S, "noise covariance"); const std::vector<ColumnVector> &all = p.ConditionalArgumentsGet(); CHECK(all.size() == s.a.size(), "number of arguments"); for (size_t i = 0; i < s.a.size() && i < all.size(); i++) eqC(all[i], s.a[i], "list of arguments"); }
static std::vector<int> ad(int k) { static const int D[7][3] = {{1, 0, 0}, {2, 0, 0}, {3, 0, 0}, {2, 1, 0}, {1, 3, 0}, {2, 2, 2}, {3, 1, 2}}; std::vector<int> d; for (int i = 0; i < 3 && D[k][i]; i++) d.push_back(D[k][i]); return d; }
CASE(linear_mean) { int n = sym_int("n", 1, 3), k = sym_int("args", 0, 6); LinearAnalyticConditionalGaussian *p; Spec s = mk(p, n, ad(k), symS("S", n)); check(*p, s); std::vector<ColumnVector> L; for (size_t i = 0; i < s.a.size(); i++) { s.a[i] = symV(("x" + std::to_string(i)).c_str(), s.a[i].size()); L.push_back(toC(s.a[i])); } if (sym_int("bulk", 0, 1)) p->ConditionalArgumentsSet(L); else for (size_t i = 0; i < L.size(); i++) p->ConditionalArgumentSet(i, L[i]); check(*p, s); delete p; REACH("end"); }
static void hist(int n, int k, int len) { LinearAnalyticConditionalGaussian *p; Spec s = mk(p, n, ad(k), symS("S", n)); int na = s.A.size(); for (int t = 0; t < len; t++) { int op = sym_int("op", 0, 5), i = na > 1 ? sym_int("i", 0, na - 1) : 0; if (op == 0) { s.a[i] = symV("x", s.a[i].size()); p->ConditionalArgumentSet(i, toC(s.a[i])); } else if (op == 1) { s.A[i] = symM("A'", n, s.a[i].size()); p->MatrixSet(i, toM(s.A[i])); } else if (op == 2) { s.m = symV("m'", n); p->AdditiveNoiseMuSet(toC(s.m)); } else if (op == 3) { s.S = symS("S'", n); p->AdditiveNoiseSigmaSet(toS(s.S)); } else if (op == 4) { p->ExpectedValueGet(); p->CovarianceGet(); p->dfGet(i); } else { LinearAnalyticConditionalGaussian *c = p->Clone(); p->MatrixSet(0, toM(Md(n, Vd(s.a[0].size(), 9.0)))); p->ConditionalArgumentSet(0, toC(Vd(s.a[0].size(), 3.0))); p->AdditiveNoiseMuSet(toC(Vd(n, 8.0))); delete p; p = c; } } check(*p, s); delete p; REACH("end"); }
CASE(history_1) { hist(1, 0, 4); }
CASE(history_2) { hist(2, 3, 3); }
CASE(history_3) { hist(1, 4, 3); }
CASE(density_1) { LinearAnalyticConditionalGaussian *p; int k = sym_int("args", 0, 3); Spec s = mk(p, 1, ad(k), symSPD("L", 1)); Vd y = symV("y", 1); for (int r = 0; r < 2; r++) { for (size_t i = 0; i < s.a.size(); i++) { s.a[i] = symV("x", s.a[i].size()); p->ConditionalArgumentSet(i, toC(s.a[i])); } CHECK_EQ((double)p->ProbabilityGet(toC(y)), dens(s.mean(), s.S, y), "conditional density"); if (!r) { s.S = symSPD("K", 1); p->AdditiveNoiseSigmaSet(toS(s.S)); s.m = symV("m'", 1); p->AdditiveNoiseMuSet(toC(s.m)); } } delete p; REACH("end"); }
CASE(density_2) { LinearAnalyticConditionalGaussian *p; Spec s = mk(p, 2, ad(sym_int("args", 0, 1)), symSPD("L", 2)); Vd y = symV("y", 2); s.a[0] = symV("x", s.a[0].size()); p->ConditionalArgumentSet(0, toC(s.a[0])); CHECK_EQ((double)p->ProbabilityGet(toC(y)), dens(s.mean(), s.S, y), "conditional density"); delete p; REACH("end"); }
CASE(density_n) { int n = sym_int("n", 3, 4); LinearAnalyticConditionalGaussian *p; Md S = conc(n, 0); Spec s; s.m = symV("m", n); s.S = S; s.A.push_back(Md(n, Vd(2, 1.0))); s.A[0][1][1] = -2.0; Gaussian g(toC(s.m), toS(S)); p = new LinearAnalyticConditionalGaussian(toM(s.A[0]), g); Vd y = symV("y", n); s.a.push_back(symV("x", 2)); p->ConditionalArgumentSet(0, toC(s.a[0])); CHECK_EQ((double)p->ProbabilityGet(toC(y)), dens(s.mean(), s.S, y), "conditional density"); delete p; REACH("end"); }
CASE(sampling_linear) { int n = sym_int("n", 1, 3); LinearAnalyticConditionalGaussian *p; Spec s = mk(p, n, ad(sym_int("args", 0, 3)), symSPD("L", n, 1e-3)); for (size_t i = 0; i < s.a.size(); i++) { s.a[i] = symV("x", s.a[i].size()); p->ConditionalArgumentSet(i, toC(s.a[i])); } sampling(*p, s.mean(), s.S); check(*p, s); delete p; REACH("end"); }
CASE(sampling_follows) { int n = sym_int("n", 1, 2); LinearAnalyticConditionalGaussian *p; Spec s = mk(p, n, ad(0), symSPD("L", n, 1e-3)); for (int r = 0; r < 2; r++) { int op = sym_int("op", 0, 3); bool ok; if (op == 0) { s.a[0] = symV("x", 1); p->ConditionalArgumentSet(0, toC(s.a[0])); } else if (op == 1) { s.S = symSPD("K", n, 1e-3); p->AdditiveNoiseSigmaSet(toS(s.S)); } else if (op == 2) { s.m = symV("m'", n); p->AdditiveNoiseMuSet(toC(s.m)); } else { draw1(*p, Vd(n, 1.0), ok); std::vector<Sample<ColumnVector> > L; p->SampleFrom(L, 2, SampleMthd::DEFAULT, NULL); rng_reset(); } } listed(*p, s.mean(), s.S, 2); delete p; REACH("end"); }
CASE(sampling_list) { int n = sym_int("n", 1, 2), k = sym_int("k", 1, 3); LinearAnalyticConditionalGaussian *p; Spec s = mk(p, n, ad(0), symSPD("L", n, 1e-3)); s.a[0] = symV("x", 1); p->ConditionalArgumentSet(0, toC(s.a[0])); Vd mu = s.mean(); bool ok; Md Am(n, Vd(n)); for (int j = 0; j < n; j++) { Vd e(n, 0.0); e[j] = 1; Vd v = draw1(*p, e, ok); for (int i = 0; i < n; i++) Am[i][j] = v[i] - mu[i]; } std::vector<Sample<ColumnVector> > L(sym_int("old", 0, 2)); rng_reset(); ok = p->SampleFrom(L, k, SampleMthd::CHOLESKY); CHECK(ok && (int)L.size() == k && rng_count() == k * n, "requested samples"); if ((int)L.size() == k && rng_count() == k * n) for (int t = 0; t < k; t++) { Vd z(n); for (int i = 0; i < n; i++) z[i] = rng_draw(t * n + i); eqC(L[t].ValueGet(), add(mul(Am, z), mu), "list sample"); } rng_reset(); delete p; REACH("end"); }
// user-defined nonlinear models built on the library's base classes
struct NL : public ConditionalGaussianAdditiveNoise { NL(const Gaussian &g) : ConditionalGaussianAdditiveNoise(g, 1) {} ColumnVector ExpectedValueGet() const { ColumnVector x = ConditionalArgumentGet(0); ColumnVector r(DimensionGet()); for (unsigned i = 1; i <= DimensionGet(); i++) r(i) = x(i) * x(i) + x(1); return r + AdditiveNoiseMuGet(); } };
struct NA : public AnalyticConditionalGaussianAdditiveNoise { NA(const Gaussian &g) : AnalyticConditionalGaussianAdditiveNoise(g, 1) {} ColumnVector ExpectedValueGet() const { ColumnVector x = ConditionalArgumentGet(0); ColumnVector r(DimensionGet()); for (unsigned i = 1; i <= DimensionGet(); i++) r(i) = x(i) * x(i) + x(1); return r + AdditiveNoiseMuGet(); } };
template <class M> static void user(int n) { Vd m = symV("m", n), x = symV("x", n), y = symV("y", n); Md S = symSPD("L", n, 1e-3); Gaussian g(toC(m), toS(S)); M p(g); p.ConditionalArgumentSet(0, toC(x)); Vd mu(n); for (int i = 0; i < n; i++) mu[i] = x[i] * x[i] + x[0] + m[i]; eqS(p.CovarianceGet(), S, "covariance"); CHECK_EQ((double)p.ProbabilityGet(toC(y)), dens(mu, S, y), "density of a user model"); sampling(p, mu, S); x = symV("x'", n); p.ConditionalArgumentSet(0, toC(x)); S = symSPD("K", n, 1e-3); p.AdditiveNoiseSigmaSet(toS(S)); m = symV("m'", n); p.AdditiveNoiseMuSet(toC(m)); for (int i = 0; i < n; i++) mu[i] = x[i] * x[i] + x[0] + m[i]; CHECK_EQ((double)p.ProbabilityGet(toC(y)), dens(mu, S, y), "density of a user model"); eqC(p.AdditiveNoiseMuGet(), m, "noise mean"); eqS(p.AdditiveNoiseSigmaGet(), S, "noise covariance"); sampling(p, mu, S); REACH("end"); }
CASE(user_1) { user<NL>(1); }
CASE(user_2) { user<NL>(2); }
CASE(user_analytic_1) { user<NA>(1); }
CASE(user_analytic_2) { user<NA>(2); }
CASE_T(history_long) { hist(2, 3, 4); }
CASE_T(linear_large) { int n = sym_int("n", 4, 5); LinearAnalyticConditionalGaussian *p; Spec s = mk(p, n, ad(6), symS("S", n)); for (size_t i = 0; i < s.a.size(); i++) { s.a[i] = symV("x", s.a[i].size()); p->ConditionalArgumentSet(i, toC(s.a[i])); } check(*p, s); delete p; REACH("end"); }
// built step by step: number of arguments, matrices and noise are set after construction
CASE(stepwise) { int n = sym_int("n", 1, 2), k = sym_int("args", 3, 5); LinearAnalyticConditionalGaussian *p; Spec s = mk(p, n, ad(0), symS("S", n)); std::vector<int> d = ad(k); p->NumConditionalArgumentsSet(d.size()); s.A.clear(); s.a.clear(); for (size_t i = 0; i < d.size(); i++) { s.A.push_back(symM("B", n, d[i])); s.a.push_back(symV("x", d[i])); p->MatrixSet(i, toM(s.A[i])); p->ConditionalArgumentSet(i, toC(s.a[i])); } check(*p, s); delete p; REACH("end"); }
template <class B> struct Late : public B { Late(int n, int k) : B(n, k) {} ColumnVector ExpectedValueGet() const { return this->ConditionalArgumentGet(0) + this->AdditiveNoiseMuGet(); } };
template <class B> static void late(int n) { Late<B> p(n, 1); Vd m = symV("m", n), x = symV("x", n), y = symV("y", n); Md S = symSPD("L", n, 1e-3); p.AdditiveNoiseMuSet(toC(m)); p.AdditiveNoiseSigmaSet(toS(S)); p.ConditionalArgumentSet(0, toC(x)); CHECK(p.DimensionGet() == (unsigned)n && p.NumConditionalArgumentsGet() == 1, "sizes"); eqC(p.ExpectedValueGet(), add(x, m), "mean"); eqS(p.CovarianceGet(), S, "covariance"); eqC(p.AdditiveNoiseMuGet(), m, "noise mean"); eqS(p.AdditiveNoiseSigmaGet(), S, "noise covariance"); CHECK_EQ((double)p.ProbabilityGet(toC(y)), dens(add(x, m), S, y), "density"); sampling(p, add(x, m), S); REACH("end"); }
CASE(noise_set_later) { int n = sym_int("n", 1, 2); if (sym_int("analytic", 0, 1)) late<AnalyticConditionalGaussianAdditiveNoise>(n); else late<ConditionalGaussianAdditiveNoise>(n); }
// larger models
CASE(sizes) { int n = sym_int("n", 6, 8), k = sym_int("args", 4, 5); ASSUME(n != 7); std::vector<Md> A; std::vector<Matrix> R; std::vector<Vd> a; for (int i = 0; i < k; i++) { int d = 1 + (i * 3) % 7; A.push_back(symM("A", n, d)); R.push_back(toM(A[i])); a.push_back(symV("x", d)); } Spec s; s.m = symV("m", n); s.S = symS("S", n); s.A = A; s.a = a; Gaussian g(toC(s.m), toS(s.S)); LinearAnalyticConditionalGaussian p(R, g); for (int i = 0; i < k; i++) p.ConditionalArgumentSet(i, toC(a[i])); check(p, s); int j = sym_int("i", 3, 4); ASSUME(j < k); s.A[j] = symM("A'", n, s.a[j].size()); p.MatrixSet(j, toM(s.A[j])); s.a[j] = symV("x'", s.a[j].size()); p.ConditionalArgumentSet(j, toC(s.a[j])); check(p, s); LinearAnalyticConditionalGaussian q(p); check(q, s); REACH("end"); }
CASE(sizes_density) { int n = 6; Spec s; s.S = conc(n, 1); s.m = symV("m", n); s.A.push_back(Md(n, Vd(7, 0.5))); for (int i = 0; i < n; i++) s.A[0][i][i + 1] = -1.0 - i; s.a.push_back(symV("x", 7)); Gaussian g(toC(s.m), toS(s.S)); LinearAnalyticConditionalGaussian p(toM(s.A[0]), g); p.ConditionalArgumentSet(0, toC(s.a[0])); Vd y = symV("y", n); CHECK_EQ((double)p.ProbabilityGet(toC(y)), dens(s.mean(), s.S, y), "conditional density"); REACH("end"); }
// a covariance that depends on the arguments
struct SC : public ConditionalGaussian { SC(int n, int k) : ConditionalGaussian(n, k) {} double sd(unsigned i) const { double t = ConditionalArgumentGet(0)(1); if (NumConditionalArgumentsGet() > 1) t = t + ConditionalArgumentGet(1)(1); return i + t * t; } ColumnVector ExpectedValueGet() const { ColumnVector r(DimensionGet()); for (unsigned i = 1; i <= DimensionGet(); i++) r(i) = ConditionalArgumentGet(0)(1) * i; return r; } SymmetricMatrix CovarianceGet() const { SymmetricMatrix s(DimensionGet()); s = 0.0; for (unsigned i = 1; i <= DimensionGet(); i++) s(i, i) = sd(i) * sd(i); return s; } };
CASE(argument_covariance) { int n = sym_int("n", 1, 2), k = sym_int("k", 1, 2); SC p(n, k); for (int r = 0; r < 2; r++) { Vd x = symV("x", 1), u = symV("u", 1), y = symV("y", n), mu(n); p.ConditionalArgumentSet(0, toC(x)); double t = x[0]; if (k == 2) { p.ConditionalArgumentSet(1, toC(u)); t = t + u[0]; } Md S(n, Vd(n, 0.0)); for (int i = 0; i < n; i++) { S[i][i] = (i + 1 + t * t) * (i + 1 + t * t); mu[i] = x[0] * (i + 1); } eqC(p.ExpectedValueGet(), mu, "mean"); eqS(p.CovarianceGet(), S, "covariance"); CHECK_EQ((double)p.ProbabilityGet(toC(y)), dens(mu, S, y), "density with the covariance at the arguments"); sampling(p, mu, S); } REACH("end"); }
// far beyond the fully symbolic sizes: fixed values apart from a few free ones
CASE(big) { int n = 20, k = 3; std::vector<Md> A; std::vector<Matrix> R; std::vector<Vd> a; for (int i = 0; i < k; i++) { int d = i == 0 ? 20 : i == 1 ? 3 : 33; Md m(n, Vd(d)); for (int r = 0; r < n; r++) for (int c = 0; c < d; c++) m[r][c] = (r * 5 + c * 3 + i) % 11 - 5; m[n - 1][d - 1] = sym_real("A"); A.push_back(m); R.push_back(toM(m)); Vd v(d, 0.5); v[0] = sym_real("x"); v[d - 1] = sym_real("x"); a.push_back(v); } Spec s; s.m = symV("m", n); s.S = conc(n, 0); s.A = A; s.a = a; Gaussian g(toC(s.m), toS(s.S)); LinearAnalyticConditionalGaussian p(R, g); for (int i = 0; i < k; i++) p.ConditionalArgumentSet(i, toC(a[i])); check(p, s); REACH("end"); }
