// P24: square-root iterated extended Kalman filter (implicit measurement models)
#include "common.h"
#include "kf.h"
#include <filter/SRiteratedextendedkalmanfilter.h>
#include <model/linearanalyticmeasurementmodel_gaussianuncertainty_implicit.h>
typedef SRIteratedExtendedKalmanFilter SRF;
// user model: virtual measurement h(x) + s-dependent offset, linearised where df_dxGet was last called
struct Imp : public LinearAnalyticMeasurementModelGaussianUncertainty_Implicit {
  QForm q; Md R, SR; bool ident; Vd x, s; ColumnVector fv; Matrix J, D; SymmetricMatrix C; Matrix SRm; int id;
  Imp(const QForm &f, const Md &r, const Md &sr, bool i, LinearAnalyticConditionalGaussian *dummy) : LinearAnalyticMeasurementModelGaussianUncertainty_Implicit(dummy), q(f), R(r), SR(sr), ident(i), fv(toC(Vd(f.A.size(), 0.0))), J(toM(f.A)), D(toM(ident_(f.A.size()))), C(toS(r)), SRm(toM(sr)), id(i ? 1 : 0) {}
  static Md ident_(int n) { return ::ident(n); }
  static Vd vec(const ColumnVector &c) { Vd r; for (unsigned k = 1; k <= c.rows(); k++) r.push_back(c(k)); return r; }
  Vd h() const { return q.val(x, s); }
  const ColumnVector &fGet() const { return fv; }
  const int TypeGet() const { return 1; }
  Matrix &dfGet(int) { return J; }
  Matrix df_dxGet(const ColumnVector &z, const ColumnVector &xx) { s = vec(z); x = vec(xx); return toM(q.jac(x)); }
  Matrix &df_dzGet(const ColumnVector &, const ColumnVector &) { return D; }
  ColumnVector PredictionGet(const ColumnVector &z, const ColumnVector &xx) { return toC(q.val(vec(xx), vec(z))); }
  ColumnVector ExpectedValueGet() { return toC(h()); }
  SymmetricMatrix &CovarianceGet() { return C; }
  SymmetricMatrix CovarianceGet(const ColumnVector &, const ColumnVector &) { return C; }
  void Calculate(const ColumnVector &, const ColumnVector &, const Matrix &) {}
  const Matrix &SRCovariance() const { return SRm; }
  const int &Is_Identity() const { return id; }
};
static LinearAnalyticConditionalGaussian *dummy(int m, int n) { return linPdf(Md(m, Vd(n, 0.0)), 0, Vd(m, 0.0), ident(m)); }
static Bel specMeas(const Bel &b, const QForm &q, const Vd &z, const Vd &s, const Md &R, int it) {
  Vd x = b.x; Md H; Md K; for (int i = 0; i < it; i++) { H = q.jac(x); Md S = add(mul(mul(H, b.P), tr(H)), R); K = mul(mul(b.P, tr(H)), inv(S)); Vd Z = add(q.val(x, s), mul(H, add(b.x, x, -1))); x = add(b.x, mul(K, add(z, Z, -1))); }
  Bel r; r.x = x; r.P = add(b.P, mul(mul(K, H), b.P), -1); return r; }
// values that went through double-precision square roots: equal up to 1e-6 for inputs in the given range
static void near(double a, double b, const char *w) { CHECK_LE(a, b + 1e-6, w); CHECK_LE(b, a + 1e-6, w); }
static void nearBel(Gaussian *g, const Bel &b, const char *w) { ColumnVector m = g->ExpectedValueGet(); SymmetricMatrix P = g->CovarianceGet(); size_t n = b.x.size(); CHECK(m.rows() == n && P.rows() == n, "size of the belief"); for (size_t i = 0; i < n; i++) { near(m(i + 1), b.x[i], (std::string(w) + ": mean").c_str()); for (size_t j = 0; j < n; j++) near(P(i + 1, j + 1), b.P[i][j], (std::string(w) + ": covariance").c_str()); } }
static Vd rangeV(const char *p, int n) { Vd v; for (int i = 0; i < n; i++) v.push_back(sym_range(nm(p, i).c_str(), -4, 4)); return v; }
static void root(SRF &f, const Bel &b, const char *w) { Matrix J = f.SRCovarianceGet(); int n = b.x.size(); CHECK((int)J.rows() == n && (int)J.columns() == n, "size of the square root"); for (int i = 1; i <= n; i++) for (int j = 1; j <= n; j++) { double s = 0; for (int k = 1; k <= n; k++) s = s + J(i, k) * J(j, k); near(s, b.P[i - 1][j - 1], w); } }
static QForm quad(int m, int n, int seed, double c) { QForm q; q.A = band(m, n, seed); q.b = Vd(m, c); q.c = Vd(m, c / 2); return q; }

// one state, one measurement: everything symbolic
CASE(scalar) {
  double p = sym_real("sqrtP"), r = sym_real("sqrtR"); ASSUME_GE(p, 1e-3); ASSUME_GE(r, 1e-3); Bel b; b.x = symV("x", 1); b.P = Md(1, Vd(1, p * p)); QForm q; q.A = symM("H", 1, 1); q.b = Vd(1, 0.0); q.c = Vd(1, 0.0); Vd z = symV("z", 1);
  Gaussian prior(toC(b.x), toS(b.P)); SRF f(&prior); Imp m(q, Md(1, Vd(1, r * r)), Md(1, Vd(1, r)), sym_int("identity", 0, 1), dummy(1, 1));
  f.MeasUpdate(&m, toC(z)); Bel e = specMeas(b, q, z, Vd(), m.R, 1); eqBel(f.PostGet(), e, "correction"); Matrix J = f.SRCovarianceGet(); CHECK_EQ(J(1, 1) * J(1, 1), e.P[0][0], "square root of the covariance"); eqBel(&prior, b, "prior"); REACH("end"); }
CASE(scalar_nonlinear) { // the linearisation follows the iterates
  int it = sym_int("iterations", 1, 3); Bel b; b.x = Vd(1, sym_range("x", -2, 2)); b.P = Md(1, Vd(1, 4.0)); QForm q = quad(1, 1, 2, 0.25); q.d = Vd(1, 1.0); Vd z(1, sym_range("z", -2, 2)), s(1, sym_range("s", -2, 2)); Md R(1, Vd(1, 2.25));
  Gaussian prior(toC(b.x), toS(b.P)); SRF f(&prior, it); Imp m(q, R, Md(1, Vd(1, 1.5)), false, dummy(1, 1)); f.MeasUpdate(&m, toC(z), toC(s)); eqBel(f.PostGet(), specMeas(b, q, z, s, R, it), "iterated correction"); REACH("end"); }
CASE(scalar_sequence) { // prediction and correction alternate
  double p = sym_real("sqrtP"); ASSUME_GE(p, 1e-3); Bel b; b.x = symV("x", 1); b.P = Md(1, Vd(1, p * p)); QForm q; q.A = Md(1, Vd(1, 2.0)); q.b = Vd(1, 0.0); q.c = Vd(1, 0.0); Vd z = symV("z", 1), w = symV("w", 1); Md R(1, Vd(1, 4.0)), F(1, Vd(1, 1.5)), Q(1, Vd(1, 0.25));
  Gaussian prior(toC(b.x), toS(b.P)); SRF f(&prior); Imp m(q, R, Md(1, Vd(1, 2.0)), false, dummy(1, 1)); LinearAnalyticSystemModelGaussianUncertainty sm(linPdf(F, 0, Vd(1, 1.0), Q));
  f.SysUpdate(&sm); Bel e = predict(b, Vd(1, 1.5 * b.x[0] + 1), F, Q); eqBel(f.PostGet(), e, "prediction"); f.MeasUpdate(&m, toC(z)); e = specMeas(e, q, z, Vd(), R, 1); eqC(f.PostGet()->ExpectedValueGet(), e.x, "mean after correction"); REACH("end"); }
static void linear(int n, int m, bool ident_) {
  sym_numeric(1);
  Bel b; b.x = rangeV("x", n); b.P = spd(n, 1); QForm q = quad(m, n, 3, 0.0); Vd z = rangeV("z", m); Md R = ident_ ? Md(m, Vd(m, 0.0)) : spd(m, 2); Md SR(m, Vd(m, 0.0)); if (ident_) for (int i = 0; i < m; i++) { SR[i][i] = i + 1.0; R[i][i] = (i + 1.0) * (i + 1.0); }
  Gaussian prior(toC(b.x), toS(b.P)); SRF f(&prior, sym_int("iterations", 1, 2)); Imp mo(q, R, SR, ident_, dummy(m, n)); f.MeasUpdate(&mo, toC(z)); Bel e = specMeas(b, q, z, Vd(), R, 1); nearBel(f.PostGet(), e, "correction"); root(f, e, "square root of the covariance"); eqBel(&prior, b, "prior"); REACH("end"); }
CASE(linear_21) { linear(2, 1, false); }
CASE(linear_12) { linear(1, 2, false); }
CASE(linear_22) { linear(2, 2, sym_int("identity", 0, 1)); }
CASE(linear_32) { linear(3, 2, false); }
CASE(linear_33) { linear(3, 3, sym_int("identity", 0, 1)); }
CASE_T(linear_43) { linear(4, 3, false); }
CASE_T(linear_54) { linear(5, 4, false); }
static void sequence(int n, int m, int steps) { // alternating updates, concrete models, symbolic means, inputs and measurements
  sym_numeric(1);
  Bel b; b.x = rangeV("x", n); b.P = spd(n, 0); Gaussian prior(toC(b.x), toS(b.P)); SRF f(&prior); Md F = band(n, n, 1), B = band(n, 1, 2), Q = spd(n, 2), R = spd(m, 1); Vd mu(n, 0.5); QForm q = quad(m, n, 4, 0.0); Imp mo(q, R, R, false, dummy(m, n)); LinearAnalyticSystemModelGaussianUncertainty sm(linPdf(F, &B, mu, Q)); Bel e = b;
  for (int k = 0; k < steps; k++) { bool meas = sym_int("measure", 0, 1); if (meas) { Vd z = rangeV("z", m); f.MeasUpdate(&mo, toC(z)); e = specMeas(e, q, z, Vd(), R, 1); } else { Vd u = rangeV("u", 1); f.SysUpdate(&sm, toC(u)); e = predict(e, add(add(mul(F, e.x), mul(B, u)), mu), F, Q); } nearBel(f.PostGet(), e, meas ? "correction" : "prediction"); root(f, e, "square root of the covariance"); }
  eqBel(&prior, b, "prior"); REACH("end"); }
CASE(sequence_21) { sequence(2, 1, 3); }
CASE(sequence_22) { sequence(2, 2, 2); }
CASE_T(sequence_32) { sequence(3, 2, 3); }
CASE(nonlinear_2) { // relinearisation in two dimensions
  sym_numeric(1);
  int it = sym_int("iterations", 1, 2); Bel b; b.x.push_back(sym_range("x", -1, 1)); b.x.push_back(0.5); b.P = Md(2, Vd(2, 2.0)); b.P[0][0] = 4; b.P[1][1] = 5; QForm q = quad(1, 2, 3, 0.125); Vd z(1, sym_range("z", -1, 1)); Md R(1, Vd(1, 2.25));
  Gaussian prior(toC(b.x), toS(b.P)); SRF f(&prior, it); Imp mo(q, R, R, false, dummy(1, 2)); f.MeasUpdate(&mo, toC(z)); Bel e = specMeas(b, q, z, Vd(), R, it); eqC(f.PostGet()->ExpectedValueGet(), e.x, "iterated mean"); if (it == 1) eqBel(f.PostGet(), e, "correction"); REACH("end"); }
CASE(prior_set) { // a new belief replaces mean, covariance and square root
  sym_numeric(1);
  int n = 2, m = 1; bool reset = sym_int("reset", 0, 1); Bel b; b.x = rangeV("x", n); b.P = spd(n, 1); Bel c; c.x = rangeV("y", n); c.P = spd(n, 4); c.P[0][1] = c.P[1][0] = 1.5; QForm q = quad(m, n, 3, 0.0); Md R = spd(m, 1); Vd z = rangeV("z", m);
  Gaussian prior(toC(b.x), toS(b.P)), next(toC(c.x), toS(c.P)); SRF f(&prior); Imp mo(q, R, R, false, dummy(m, n)); if (sym_int("before", 0, 1)) f.MeasUpdate(&mo, toC(Vd(m, 1.0)));
  if (reset) f.Reset(&next); else { ColumnVector X = toC(c.x); SymmetricMatrix P = toS(c.P); f.PriorSet(X, P); } nearBel(f.PostGet(), c, "new belief"); root(f, c, "new square root"); f.MeasUpdate(&mo, toC(z)); nearBel(f.PostGet(), specMeas(c, q, z, Vd(), R, 1), "correction of the new belief"); eqBel(&next, c, "belief passed in"); REACH("end"); }
// noise that depends on the state and the input, or acts on a part of the state only
CASE(state_noise) { int in = sym_int("in", 0, 1); double p = sym_real("sqrtP"); ASSUME_GE(p, 1e-3); Bel b; b.x = symV("x", 1); b.P = Md(1, Vd(1, p * p)); QForm q = symQ("f", 1, 1, in); Vd mu = symV("mu", 1), u; if (in) u = symV("u", 1); double k = sym_real("q"); ASSUME_GE(k, 1e-3); Md Q(1, Vd(1, k)); SPdf pf(q, Gaussian(toC(mu), toS(Q)), 0.5); AnalyticSystemModelGaussianUncertainty sm(&pf); Gaussian prior(toC(b.x), toS(b.P)); SRF f(&prior); if (in) f.SysUpdate(&sm, toC(u)); else f.SysUpdate(&sm); eqBel(f.PostGet(), predict(b, add(q.val(b.x, u), mu), q.jac(b.x), sCov(Q, 0.5, b.x, u)), "prediction with the noise at the current mean"); REACH("end"); }
CASE(partial_noise) { sym_numeric(1); int n = sym_int("n", 2, 3), k = sym_int("silent", 0, 3); ASSUME(k <= n); Bel b; b.x = rangeV("x", n); b.P = spd(n, 0); Gaussian prior(toC(b.x), toS(b.P)); SRF f(&prior); Md F = band(n, n, 1), Q(n, Vd(n, 0.0)), R = spd(1, 1); for (int i = 0; i < n; i++) if (i != k && k < n) Q[i][i] = 0.5 + i; Vd mu(n, 0.5); QForm q = quad(1, n, 4, 0.0); Imp mo(q, R, R, false, dummy(1, n)); LinearAnalyticSystemModelGaussianUncertainty sm(linPdf(F, 0, mu, Q)); Bel e = predict(b, add(mul(F, b.x), mu), F, Q); f.SysUpdate(&sm); nearBel(f.PostGet(), e, "prediction"); root(f, e, "square root of the covariance"); Vd z = rangeV("z", 1); f.MeasUpdate(&mo, toC(z)); e = specMeas(e, q, z, Vd(), R, 1); nearBel(f.PostGet(), e, "correction"); root(f, e, "square root of the covariance"); e = predict(e, add(mul(F, e.x), mu), F, Q); f.SysUpdate(&sm); nearBel(f.PostGet(), e, "prediction"); root(f, e, "square root of the covariance"); REACH("end"); }
CASE(root_set) { // any square root of the same covariance leads to the same beliefs
  sym_numeric(1); int n = 2, m = sym_int("m", 1, 2); Bel b; b.x = rangeV("x", n); Md L(2, Vd(2, 0.0)); L[0][0] = 2; L[1][0] = -1; L[1][1] = 3; b.P = mul(L, tr(L)); Md O(2, Vd(2)); int k = sym_int("root", 0, 2); O[0][0] = O[1][1] = k == 0 ? 0.6 : k == 1 ? 0.0 : -0.28; O[0][1] = k == 0 ? -0.8 : k == 1 ? 1.0 : 0.96; O[1][0] = -O[0][1]; Md J = mul(L, O); Gaussian prior(toC(b.x), toS(b.P)); SRF f(&prior); f.SRCovarianceSet(toM(J)); Matrix G = f.SRCovarianceGet(); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) near(G(i + 1, j + 1), J[i][j], "square root read back"); nearBel(f.PostGet(), b, "belief"); QForm q = quad(m, n, 3, 0.0); Md R = spd(m, 1); Imp mo(q, R, R, false, dummy(m, n)); Vd z = rangeV("z", m); Bel e = specMeas(b, q, z, Vd(), R, 1); if (sym_int("predict", 0, 1)) { Md F = band(n, n, 1), Q = spd(n, 2); Vd mu(n, 0.5); LinearAnalyticSystemModelGaussianUncertainty sm(linPdf(F, 0, mu, Q)); f.SysUpdate(&sm); Bel c = predict(b, add(mul(F, b.x), mu), F, Q); nearBel(f.PostGet(), c, "prediction"); e = specMeas(c, q, z, Vd(), R, 1); } f.MeasUpdate(&mo, toC(z)); nearBel(f.PostGet(), e, "correction"); root(f, e, "square root of the covariance"); REACH("end"); }
