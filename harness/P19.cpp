// System and measurement models: prediction, covariance, Jacobian, density and simulation use exactly the state and input given.
#include "common.h"
#include "models.h"
#include "gauss.h"
#include "pick.h"
#include <model/discretesystemmodel.h>
#include <model/linearanalyticmeasurementmodel_gaussianuncertainty_implicit.h>
static Vd lin(const Md &A, const Vd &x, const Md *B, const Vd &u, const Vd &mu) { Vd r = add(mul(A, x), mu); if (B) r = add(r, mul(*B, u)); return r; }
CASE(linear_system) { int n = sym_int("n", 1, 3), in = sym_int("in", 0, 1), k = in ? sym_int("k", 1, 2) : 1; Md A = symM("A", n, n), B = symM("B", n, k), S = symS("S", n); Vd mu = symV("mu", n); LinearAnalyticConditionalGaussian *p = linPdf(A, in ? &B : 0, mu, S); LinearAnalyticSystemModelGaussianUncertainty m(p); CHECK(m.StateSizeGet() == n && m.SystemWithoutInputs() == !in && m.SystemPdfGet() == p, "model"); for (int t = 0; t < 2; t++) { Vd x = symV("x", n), u = symV("u", k); eqC(m.PredictionGet(toC(u), toC(x)), lin(A, x, in ? &B : 0, u, mu), "prediction"); eqS(m.CovarianceGet(toC(u), toC(x)), S, "covariance"); eqM(m.df_dxGet(toC(u), toC(x)), A, "Jacobian"); eqM(m.AGet(), A, "A"); if (in) eqM(m.BGet(), B, "B"); if (t == 0) { A = symM("A'", n, n); m.ASet(toM(A)); if (in) { B = symM("B'", n, k); m.BSet(toM(B)); } } } delete p; REACH("end"); }
CASE(linear_measurement) { int n = sym_int("n", 1, 3), r = sym_int("r", 1, 3), in = sym_int("in", 0, 1), k = 2; Md H = symM("H", r, n), J = symM("J", r, k), S = symS("S", r); Vd mu = symV("mu", r); LinearAnalyticConditionalGaussian *p = linPdf(H, in ? &J : 0, mu, S); LinearAnalyticMeasurementModelGaussianUncertainty m(p); CHECK(m.MeasurementSizeGet() == r && m.SystemWithoutSensorParams() == !in && m.MeasurementPdfGet() == p, "model"); for (int t = 0; t < 2; t++) { Vd x = symV("x", n), u = symV("u", k); eqC(m.PredictionGet(toC(u), toC(x)), lin(H, x, in ? &J : 0, u, mu), "prediction"); eqS(m.CovarianceGet(toC(u), toC(x)), S, "covariance"); eqM(m.df_dxGet(toC(u), toC(x)), H, "Jacobian"); eqM(m.HGet(), H, "H"); if (in) eqM(m.JGet(), J, "J"); if (t == 0) { H = symM("H'", r, n); m.HSet(toM(H)); if (in) { J = symM("J'", r, k); m.JSet(toM(J)); } } } delete p; REACH("end"); }
CASE(nonlinear) { int n = sym_int("n", 1, 3), in = sym_int("in", 0, 1), r = sym_int("r", 1, 2); QForm f = symQ("f", n, n, in), h = symQ("h", r, n, in); Md Q = symS("Q", n), R = symS("R", r); Vd mu = symV("mu", n), nu = symV("nu", r); QPdf pf(f, Gaussian(toC(mu), toS(Q))), ph(h, Gaussian(toC(nu), toS(R))); AnalyticSystemModelGaussianUncertainty s(&pf); AnalyticMeasurementModelGaussianUncertainty m(&ph); for (int t = 0; t < 2; t++) { Vd x = symV("x", n), u = symV("u", 1); eqC(s.PredictionGet(toC(u), toC(x)), add(f.val(x, u), mu), "prediction"); Vd x2 = symV("x2", n); eqM(s.df_dxGet(toC(u), toC(x2)), f.jac(x2), "Jacobian"); eqS(s.CovarianceGet(toC(u), toC(x)), Q, "covariance"); eqC(m.PredictionGet(toC(u), toC(x)), add(h.val(x, u), nu), "measurement prediction"); eqM(m.df_dxGet(toC(u), toC(x2)), h.jac(x2), "measurement Jacobian"); eqS(m.CovarianceGet(toC(u), toC(x)), R, "measurement covariance"); } REACH("end"); }
CASE(simulate) { int n = sym_int("n", 1, 2), in = sym_int("in", 0, 1), r = sym_int("r", 1, 2); Md A = symM("A", n, n), B = symM("B", n, 1), H = symM("H", r, n), J = symM("J", r, 1); Vd mu = symV("mu", n), nu = symV("nu", r); LinearAnalyticConditionalGaussian *p = linPdf(A, in ? &B : 0, mu, ident(n)), *q = linPdf(H, in ? &J : 0, nu, ident(r)); LinearAnalyticSystemModelGaussianUncertainty s(p); LinearAnalyticMeasurementModelGaussianUncertainty m(q); for (int t = 0; t < 2; t++) { Vd x = symV("x", n), u = symV("u", 1), z = symV("z", n), w = symV("w", r); rng_reset(); for (double a : z) rng_queue(a); ColumnVector y = in ? s.Simulate(toC(x), toC(u)) : s.Simulate(toC(x)); CHECK(rng_unused() == 0 && rng_count() == n, "one draw per dimension"); eqC(y, add(lin(A, x, in ? &B : 0, u, mu), z), "simulated state"); rng_reset(); for (double a : w) rng_queue(a); ColumnVector v = in ? m.Simulate(toC(x), toC(u)) : m.Simulate(toC(x)); CHECK(rng_unused() == 0 && rng_count() == r, "one draw per dimension"); eqC(v, add(lin(H, x, in ? &J : 0, u, nu), w), "simulated measurement"); } rng_reset(); delete p; delete q; REACH("end"); }
CASE(density) { int n = sym_int("n", 1, 2), in = sym_int("in", 0, 1); Md A = symM("A", n, n), B = symM("B", n, 1), S = n == 1 ? symSPD("S", 1) : conc(2, 1); Vd mu = symV("mu", n); LinearAnalyticConditionalGaussian *p = linPdf(A, in ? &B : 0, mu, S), *q = linPdf(A, in ? &B : 0, mu, S); LinearAnalyticSystemModelGaussianUncertainty s(p); LinearAnalyticMeasurementModelGaussianUncertainty m(q); for (int t = 0; t < 2; t++) { Vd x = symV("x", n), u = symV("u", 1), y = symV("y", n); double e = dens(lin(A, x, in ? &B : 0, u, mu), S, y); if (in) { CHECK_EQ((double)s.ProbabilityGet(toC(y), toC(x), toC(u)), e, "transition density"); CHECK_EQ((double)m.ProbabilityGet(toC(y), toC(x), toC(u)), e, "likelihood"); } else { CHECK_EQ((double)s.ProbabilityGet(toC(y), toC(x)), e, "transition density"); CHECK_EQ((double)m.ProbabilityGet(toC(y), toC(x)), e, "likelihood"); } } delete p; delete q; REACH("end"); }
CASE(replace_pdf) { int n = sym_int("n", 1, 2), a = sym_int("in1", 0, 1), b = sym_int("in2", 0, 1); Md A = symM("A", n, n), B = symM("B", n, 1), A2 = symM("A2", n, n), B2 = symM("B2", n, 1), S = symS("S", n), S2 = symS("S2", n); Vd mu = symV("mu", n), mu2 = symV("mu2", n); LinearAnalyticConditionalGaussian *p = linPdf(A, a ? &B : 0, mu, S), *q = linPdf(A2, b ? &B2 : 0, mu2, S2); LinearAnalyticSystemModelGaussianUncertainty s(p); LinearAnalyticMeasurementModelGaussianUncertainty m(p); s.SystemPdfSet(q); m.MeasurementPdfSet(q); CHECK(s.SystemPdfGet() == q && m.MeasurementPdfGet() == q && s.SystemWithoutInputs() == !b && m.SystemWithoutSensorParams() == !b, "replaced"); Vd x = symV("x", n), u = symV("u", 1); eqC(s.PredictionGet(toC(u), toC(x)), lin(A2, x, b ? &B2 : 0, u, mu2), "prediction"); eqC(m.PredictionGet(toC(u), toC(x)), lin(A2, x, b ? &B2 : 0, u, mu2), "prediction"); eqS(s.CovarianceGet(toC(u), toC(x)), S2, "covariance"); eqS(m.CovarianceGet(toC(u), toC(x)), S2, "covariance"); eqM(s.df_dxGet(toC(u), toC(x)), A2, "Jacobian"); eqM(m.df_dxGet(toC(u), toC(x)), A2, "Jacobian"); delete p; delete q; REACH("end"); }
CASE(discrete) { int n = sym_int("n", 1, 3), in = sym_int("in", 0, 1), k = in ? 2 : 1; int D[2] = {n, k}; DiscreteConditionalPdf p(n, in ? 2 : 1, D); std::vector<Vd> T; for (int c = 0; c < n * k; c++) { Vd v = symV("p", n); double s = 0; for (double x : v) { ASSUME_GE(x, 0.0); s = s + x; } ASSUME_GT(s, 0.0); for (double &x : v) x = x / s; T.push_back(v); std::vector<int> a(1, c % n); if (in) a.push_back(c / n); for (int i = 0; i < n; i++) p.ProbabilitySet(v[i], i, a); } DiscreteSystemModel m(&p); DiscreteSystemModel mc(m); CHECK((int)m.NumStatesGet() == n && (int)mc.NumStatesGet() == n && m.SystemWithoutInputs() == !in && mc.SystemWithoutInputs() == !in, "model"); for (int c = 0; c < n * k; c++) for (int i = 0; i < n; i++) { int x = c % n, u = c / n; CHECK_EQ((double)(in ? m.ProbabilityGet(i, x, u) : m.ProbabilityGet(i, x)), T[c][i], "transition probability"); } int c = sym_int("c", 0, n * k - 1); rng_reset(); int y = in ? mc.Simulate(c % n, c / n) : mc.Simulate(c % n); CHECK(rng_count() == 1, "one draw"); if (rng_count() == 1) checkPick(T[c], rng_draw(0), y, "simulated state"); REACH("end"); }
CASE_T(linear_large) { int n = sym_int("n", 4, 5), k = 3; Md A = symM("A", n, n), B = symM("B", n, k), S = symS("S", n); Vd mu = symV("mu", n), x = symV("x", n), u = symV("u", k); LinearAnalyticConditionalGaussian *p = linPdf(A, &B, mu, S); LinearAnalyticSystemModelGaussianUncertainty s(p); LinearAnalyticMeasurementModelGaussianUncertainty m(p); eqC(s.PredictionGet(toC(u), toC(x)), lin(A, x, &B, u, mu), "prediction"); eqC(m.PredictionGet(toC(u), toC(x)), lin(A, x, &B, u, mu), "prediction"); eqS(s.CovarianceGet(toC(u), toC(x)), S, "covariance"); eqM(m.df_dxGet(toC(u), toC(x)), A, "Jacobian"); delete p; REACH("end"); }
// larger models
CASE(sizes) { int n = sym_int("n", 6, 8), r = 14 - n, k = 5; ASSUME(n != 7); Md A = symM("A", n, n), B = symM("B", n, k), S = symS("S", n), H = symM("H", r, n), J = symM("J", r, k), R = symS("R", r); Vd mu = symV("mu", n), nu = symV("nu", r); LinearAnalyticConditionalGaussian *p = linPdf(A, &B, mu, S), *q = linPdf(H, &J, nu, R); LinearAnalyticSystemModelGaussianUncertainty s(p); LinearAnalyticMeasurementModelGaussianUncertainty m(q); CHECK(s.StateSizeGet() == n && m.MeasurementSizeGet() == r, "sizes"); Vd x = symV("x", n), u = symV("u", k); eqC(s.PredictionGet(toC(u), toC(x)), lin(A, x, &B, u, mu), "prediction"); eqC(m.PredictionGet(toC(u), toC(x)), lin(H, x, &J, u, nu), "prediction"); eqS(s.CovarianceGet(toC(u), toC(x)), S, "covariance"); eqS(m.CovarianceGet(toC(u), toC(x)), R, "covariance"); eqM(s.df_dxGet(toC(u), toC(x)), A, "Jacobian"); eqM(m.df_dxGet(toC(u), toC(x)), H, "Jacobian"); eqM(s.BGet(), B, "B"); eqM(m.JGet(), J, "J"); delete p; delete q; REACH("end"); }
CASE(sizes_discrete) { int n = sym_int("n", 6, 9), k = 4; ASSUME(n == 6 || n == 9); int D[2] = {n, k}, fc = sym_int("c", 0, 1) ? n * k - 1 : n + 2; DiscreteConditionalPdf p(n, 2, D); std::vector<Vd> T; for (int c = 0; c < n * k; c++) { Vd v(n); double s = 0; for (int i = 0; i < n; i++) { v[i] = 1 + (i * 3 + c) % 4; s = s + v[i]; } for (double &x : v) x = x / s; if (c == fc) { v = Vd(n, 0.0); v[1] = sym_real("p"); ASSUME_GE(v[1], 0.0); ASSUME_LE(v[1], 1.0); v[n - 1] = 1.0 - v[1]; } T.push_back(v); std::vector<int> a(1, c % n); a.push_back(c / n); for (int i = 0; i < n; i++) p.ProbabilitySet(v[i], i, a); } DiscreteSystemModel m(&p); CHECK((int)m.NumStatesGet() == n, "states"); for (int c = 0; c < n * k; c++) for (int i = 0; i < n; i++) CHECK_EQ((double)m.ProbabilityGet(i, c % n, c / n), T[c][i], "transition probability"); rng_reset(); int y = m.Simulate(fc % n, fc / n); CHECK(rng_count() == 1, "one draw"); if (rng_count() == 1) checkPick(T[fc], rng_draw(0), y, "simulated state"); rng_reset(); REACH("end"); }
// far beyond the fully symbolic sizes: fixed values apart from a few free ones
static Md bandM(int r, int c, int s) { Md m(r, Vd(c)); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m[i][j] = (i * 5 + j * 3 + s) % 11 - 5; return m; }
static Md spdM(int n, int s) { Md m = ident(n); for (int i = 0; i < n; i++) { m[i][i] = 4 + (i + s) % 3; if (i) m[i][i - 1] = m[i - 1][i] = 0.5; } return m; }
CASE(big) { int n = sym_int("n", 0, 1) ? 12 : 20, r = n == 12 ? 17 : 11, k = 5; Md A = bandM(n, n, 0), B = bandM(n, k, 1), S = spdM(n, 0), H = bandM(r, n, 2), J = bandM(r, k, 0), R = spdM(r, 1); A[n - 1][n - 1] = sym_real("a"); H[r - 1][n - 2] = sym_real("h"); S[n - 1][n - 1] = sym_real("s"); Vd mu = symV("mu", n), nu = symV("nu", r); LinearAnalyticConditionalGaussian *p = linPdf(A, &B, mu, S), *q = linPdf(H, &J, nu, R); LinearAnalyticSystemModelGaussianUncertainty s(p); LinearAnalyticMeasurementModelGaussianUncertainty m(q); CHECK(s.StateSizeGet() == n && m.MeasurementSizeGet() == r, "sizes"); Vd x = symV("x", n), u = symV("u", k); eqC(s.PredictionGet(toC(u), toC(x)), lin(A, x, &B, u, mu), "prediction"); eqC(m.PredictionGet(toC(u), toC(x)), lin(H, x, &J, u, nu), "prediction"); eqS(s.CovarianceGet(toC(u), toC(x)), S, "covariance"); eqS(m.CovarianceGet(toC(u), toC(x)), R, "covariance"); eqM(s.df_dxGet(toC(u), toC(x)), A, "Jacobian"); eqM(m.df_dxGet(toC(u), toC(x)), H, "Jacobian"); eqM(s.BGet(), B, "B"); eqM(m.JGet(), J, "J"); delete p; delete q; REACH("end"); }
