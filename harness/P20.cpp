// Kalman prediction: mean F x + B u + noise mean, covariance F P F' + Q, for every model, belief and history.
#include "common.h"
#include "kf.h"
struct Sys { Md F, B, Q; Vd mu; bool in; LinearAnalyticConditionalGaussian *p; LinearAnalyticSystemModelGaussianUncertainty *m; Sys(int n, bool i) : in(i) { F = symM("F", n, n); B = symM("B", n, 2); Q = symS("Q", n); mu = symV("mu", n); p = linPdf(F, in ? &B : 0, mu, Q); m = new LinearAnalyticSystemModelGaussianUncertainty(p); } ~Sys() { delete m; delete p; } Vd f(const Vd &x, const Vd &u) const { Vd r = add(mul(F, x), mu); return in ? add(r, mul(B, u)) : r; } };
static void step(ExtendedKalmanFilter &f, Sys &s, Bel &b, int how) { int n = b.x.size(); Vd u = symV("u", 2); b = predict(b, s.f(b.x, u), s.F, s.Q); bool ok; if (s.in) ok = f.Update(s.m, toC(u)); else if (how == 0) ok = f.Update(s.m); else ok = f.Update(s.m, ColumnVector(n)); CHECK(ok, "update succeeds"); }
CASE(one_step) { int n = sym_int("n", 1, 3), in = sym_int("in", 0, 1); Bel b; b.x = symV("x", n); b.P = symS("P", n); Bel b0 = b; Sys s(n, in); Gaussian prior(toC(b.x), toS(b.P)); { ExtendedKalmanFilter f(&prior); eqBel(f.PostGet(), b, "initial belief"); step(f, s, b, sym_int("how", 0, 1)); eqBel(f.PostGet(), b, "prediction"); } eqBel(&prior, b0, "prior not touched"); REACH("end"); }
CASE(two_steps) { int n = sym_int("n", 1, 2); Bel b; b.x = symV("x", n); b.P = symS("P", n); Sys s(n, sym_int("in1", 0, 1)), t(n, sym_int("in2", 0, 1)); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); step(f, s, b, 0); eqBel(f.PostGet(), b, "first prediction"); step(f, t, b, 0); eqBel(f.PostGet(), b, "second prediction"); step(f, s, b, 1); eqBel(f.PostGet(), b, "third prediction"); REACH("end"); }
CASE(changed_model) { int n = sym_int("n", 1, 2); Bel b; b.x = symV("x", n); b.P = symS("P", n); Sys s(n, true); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); step(f, s, b, 0); s.F = symM("F'", n, n); s.m->ASet(toM(s.F)); s.B = symM("B'", n, 2); s.m->BSet(toM(s.B)); s.Q = symS("Q'", n); s.p->AdditiveNoiseSigmaSet(toS(s.Q)); s.mu = symV("mu'", n); s.p->AdditiveNoiseMuSet(toC(s.mu)); step(f, s, b, 0); eqBel(f.PostGet(), b, "prediction with the changed model"); REACH("end"); }
CASE(symmetric) { int n = 3; Bel b; b.x = symV("x", n); b.P = symS("P", n); Sys s(n, false); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); f.Update(s.m); SymmetricMatrix C = f.PostGet()->CovarianceGet(); for (int i = 1; i <= n; i++) for (int j = 1; j < i; j++) CHECK_EQ(C(i, j), C(j, i), "covariance stays symmetric"); REACH("end"); }
CASE(dim_4_5) { int n = sym_int("n", 4, 5); Bel b; b.x = symV("x", n); b.P = symS("P", n); Md F = band(n, n, 1); F[0][n - 1] = sym_real("f1"); F[n - 1][1] = sym_real("f2"); Md Q = symS("Q", n); Vd mu = symV("mu", n); LinearAnalyticConditionalGaussian *p = linPdf(F, 0, mu, Q); LinearAnalyticSystemModelGaussianUncertainty m(p); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); f.Update(&m); b = predict(b, add(mul(F, b.x), mu), F, Q); eqBel(f.PostGet(), b, "prediction"); delete p; REACH("end"); }
CASE(nonlinear) { int n = sym_int("n", 1, 3), in = sym_int("in", 0, 1); QForm q = symQ("f", n, n, in); Bel b; b.x = symV("x", n); b.P = symS("P", n); Md Q = symS("Q", n); Vd mu = symV("mu", n), u = symV("u", 1); QPdf pf(q, Gaussian(toC(mu), toS(Q))); AnalyticSystemModelGaussianUncertainty s(&pf); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); b = predict(b, add(q.val(b.x, u), mu), q.jac(b.x), Q); if (in) f.Update(&s, toC(u)); else f.Update(&s); eqBel(f.PostGet(), b, "linearised prediction"); REACH("end"); }
CASE(nonlinear_2) { QForm q = symQ("f", 1, 1, true); Bel b; b.x = symV("x", 1); b.P = symS("P", 1); Md Q = symS("Q", 1); Vd mu = symV("mu", 1); QPdf pf(q, Gaussian(toC(mu), toS(Q))); AnalyticSystemModelGaussianUncertainty s(&pf); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); for (int k = 0; k < 2; k++) { Vd u = symV("u", 1); b = predict(b, add(q.val(b.x, u), mu), q.jac(b.x), Q); f.Update(&s, toC(u)); eqBel(f.PostGet(), b, "linearised at the current mean"); } REACH("end"); }
CASE_T(dim_6) { int n = 6; Bel b; b.x = symV("x", n); b.P = symS("P", n); Md F = symM("F", n, n), Q = symS("Q", n); Vd mu = symV("mu", n); LinearAnalyticConditionalGaussian *p = linPdf(F, 0, mu, Q); LinearAnalyticSystemModelGaussianUncertainty m(p); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); f.Update(&m); b = predict(b, add(mul(F, b.x), mu), F, Q); eqBel(f.PostGet(), b, "prediction"); delete p; REACH("end"); }
// larger states
CASE(sizes) { int n = sym_int("n", 7, 9); ASSUME(n != 8); Bel b; b.x = symV("x", n); b.P = symS("P", n); Md F = band(n, n, 1), B = band(n, 3, 4), Q = symS("Q", n); F[n - 1][0] = sym_real("f"); Vd mu = symV("mu", n), u = symV("u", 3); LinearAnalyticConditionalGaussian *p = linPdf(F, &B, mu, Q); LinearAnalyticSystemModelGaussianUncertainty m(p); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); f.Update(&m, toC(u)); b = predict(b, add(add(mul(F, b.x), mul(B, u)), mu), F, Q); eqBel(f.PostGet(), b, "prediction"); delete p; REACH("end"); }
CASE(many_steps) { int n = 2, N = 9; Bel b; b.x = symV("x", n); b.P = symS("P", n); Md Q = spd(n, 1); Vd mu(n, 0.25); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); LinearAnalyticConditionalGaussian *p = linPdf(band(n, n, 0), 0, mu, Q); LinearAnalyticSystemModelGaussianUncertainty m(p); for (int t = 0; t < N; t++) { Md F = band(n, n, t); m.ASet(toM(F)); CHECK(f.Update(&m), "update succeeds"); b = predict(b, add(mul(F, b.x), mu), F, Q); } eqBel(f.PostGet(), b, "after many predictions"); delete p; REACH("end"); }
// noise that depends on the state and the input
CASE(state_noise) { int n = sym_int("n", 1, 3), in = sym_int("in", 0, 1), N = sym_int("N", 1, 2); ASSUME(n == 1 || N == 1); QForm q = symQ("f", n, n, in); Bel b; b.x = symV("x", n); b.P = symS("P", n); Md Q = symS("Q", n); Vd mu = symV("mu", n); SPdf pf(q, Gaussian(toC(mu), toS(Q)), 0.5); AnalyticSystemModelGaussianUncertainty s(&pf); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); for (int t = 0; t < N; t++) { Vd u; if (in) u = symV("u", 1); b = predict(b, add(q.val(b.x, u), mu), q.jac(b.x), sCov(Q, 0.5, b.x, u)); if (in) f.Update(&s, toC(u)); else f.Update(&s); eqBel(f.PostGet(), b, "prediction with the noise at the current mean"); } REACH("end"); }
// far beyond the fully symbolic sizes: fixed values apart from a few free ones
CASE(big) { int n = sym_int("n", 0, 1) ? 12 : 20; Bel b; b.x = symV("x", n); b.P = spd(n, 1); b.P[n - 1][n - 1] = sym_real("p"); Md F = band(n, n, 1), B = band(n, 3, 4), Q = spd(n, 0); F[n - 1][0] = sym_real("f"); Vd mu = symV("mu", n), u = symV("u", 3); LinearAnalyticConditionalGaussian *p = linPdf(F, &B, mu, Q); LinearAnalyticSystemModelGaussianUncertainty m(p); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); f.Update(&m, toC(u)); b = predict(b, add(add(mul(F, b.x), mul(B, u)), mu), F, Q); eqBel(f.PostGet(), b, "prediction"); delete p; REACH("end"); }
CASE(big_history) { int n = 1; Bel b; b.x = symV("x", n); b.P = symS("P", n); Md Q = spd(n, 1); Vd mu(n, 0.25); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); LinearAnalyticConditionalGaussian *p = linPdf(band(n, n, 0), 0, mu, Q); LinearAnalyticSystemModelGaussianUncertainty m(p); for (int t = 0; t < 40; t++) { Md F(1, Vd(1, t % 3 ? 0.5 : 2.0)); m.ASet(toM(F)); CHECK(f.Update(&m), "update succeeds"); b = predict(b, add(mul(F, b.x), mu), F, Q); } eqBel(f.PostGet(), b, "after many predictions"); delete p; REACH("end"); }
