// Kalman correction: gain P H'(H P H' + R)^-1 applied to the innovation, covariance P - K H P, for every belief, model and measurement.
#include "common.h"
#include "kf.h"
struct Mea { Md H, J, R; Vd nu; bool in; LinearAnalyticConditionalGaussian *p; LinearAnalyticMeasurementModelGaussianUncertainty *m; Mea(const Md &h, const Md &r, bool i) : H(h), R(r), in(i) { int k = h.size(); J = symM("J", k, 2); nu = symV("nu", k); p = linPdf(H, in ? &J : 0, nu, R); m = new LinearAnalyticMeasurementModelGaussianUncertainty(p); } ~Mea() { delete m; delete p; } Vd h(const Vd &x, const Vd &s) const { Vd r = add(mul(H, x), nu); return in ? add(r, mul(J, s)) : r; } };
static void step(ExtendedKalmanFilter &f, Mea &m, Bel &b, bool assume = true) { Vd z = symV("z", m.H.size()), s = symV("s", 2); b = correct(b, z, m.h(b.x, s), m.H, m.R, assume); CHECK(m.in ? f.Update(m.m, toC(z), toC(s)) : f.Update(m.m, toC(z)), "update succeeds"); }
static void one(int n, int k, bool in) { Bel b; b.x = symV("x", n); b.P = symS("P", n); Bel b0 = b; Mea m(symM("H", k, n), symS("R", k), in); Gaussian prior(toC(b.x), toS(b.P)); { ExtendedKalmanFilter f(&prior); step(f, m, b); eqBel(f.PostGet(), b, "correction"); } eqBel(&prior, b0, "prior not touched"); REACH("end"); }
CASE(n1_m1) { one(1, 1, sym_int("in", 0, 1)); }
CASE(n2_m1) { one(2, 1, sym_int("in", 0, 1)); }
CASE(n3_m1) { one(3, 1, false); }
CASE(n1_m2) { one(1, 2, sym_int("in", 0, 1)); }
CASE(n2_m2) { one(2, 2, false); }
CASE(n4_m1) { Bel b; b.x = symV("x", 4); b.P = symS("P", 4); Mea m(symM("H", 1, 4), symS("R", 1), true); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); step(f, m, b); eqBel(f.PostGet(), b, "correction"); REACH("end"); }
// larger problems: concrete covariances, one symbolic entry each, symbolic state and measurement
static void part(int n, int k, int sy) { Bel b; b.x = symV("x", n); b.P = spd(n, 1); Md H = band(k, n, 2), R = spd(k, 0); if (sy == 1) { H[0][n - 1] = sym_real("h"); } else if (sy == 2) { R[k - 1][k - 1] = sym_real("r"); ASSUME_GT(R[k - 1][k - 1], 0.0); } else if (sy == 3) { b.P[0][0] = sym_real("p"); ASSUME_GT(b.P[0][0], 0.0); } Mea m(H, R, n == 3); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); step(f, m, b); eqBel(f.PostGet(), b, "correction"); REACH("end"); }
CASE(n3_m2) { part(3, 2, sym_int("sy", 0, 3)); }
CASE(n2_m3) { part(2, 3, sym_int("sy", 0, 2)); }
CASE(n3_m3) { part(3, 3, sym_int("sy", 0, 2)); }
CASE(n5_m2) { part(5, 2, sym_int("sy", 0, 1)); }
CASE(alternating_sizes) { // measurements of different dimension in one filter, in any order
  int n = 2; Bel b; b.x = symV("x", n); b.P = spd(n, 1); Mea a(band(1, n, 1), spd(1, 0), false), c(band(2, n, 2), spd(2, 1), true), d(band(3, n, 4), spd(3, 2), false); Mea *M[3] = {&a, &c, &d}; Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); int pre = sym_int("pre", 0, 2); if (pre == 1) { f.AllocateMeasModel(2u); f.AllocateMeasModelExt(3u); } else if (pre == 2) { std::vector<unsigned> v; v.push_back(1); v.push_back(3); f.AllocateMeasModel(v); f.AllocateMeasModelExt(v); } for (int t = 0; t < 3; t++) { step(f, *M[sym_int("which", 0, 2)], b, false); } eqBel(f.PostGet(), b, "corrections of different size"); REACH("end"); }
CASE(sequence) { int n = 1; Bel b; b.x = symV("x", n); b.P = symS("P", n); ASSUME_GT(b.P[0][0], 0.0); Md R = symS("R", 1); ASSUME_GT(R[0][0], 0.0); Mea m(symM("H", 1, 1), R, false); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); double p0 = b.P[0][0]; for (int t = 0; t < 3; t++) { step(f, m, b, false); eqBel(f.PostGet(), b, "correction in a sequence"); double p = f.PostGet()->CovarianceGet()(1, 1); CHECK_GT(p, 0.0, "variance stays positive"); CHECK_LE(p, p0, "a measurement never adds variance"); p0 = p; } REACH("end"); }
CASE(predict_and_correct) { int in = sym_int("in", 0, 1), sp = sym_int("sp", 0, 1), n = 2; Bel b; b.x = symV("x", n); b.P = spd(n, 0); Md F = band(n, n, 1), B = symM("B", n, 2), Q = spd(n, 2); Vd mu = symV("mu", n), u = symV("u", 2); LinearAnalyticConditionalGaussian *p = linPdf(F, in ? &B : 0, mu, Q); LinearAnalyticSystemModelGaussianUncertainty s(p); Mea m(symM("H", 1, n), spd(1, 0), sp); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); for (int t = 0; t < 2; t++) { Vd fx = add(mul(F, b.x), mu); if (in) fx = add(fx, mul(B, u)); b = predict(b, fx, F, Q); Vd z = symV("z", 1), sn = symV("s", 2); b = correct(b, z, m.h(b.x, sn), m.H, m.R, t == 0); bool ok; if (in && sp) ok = f.Update(&s, toC(u), m.m, toC(z), toC(sn)); else if (in) ok = f.Update(&s, toC(u), m.m, toC(z)); else if (sp) ok = f.Update(&s, m.m, toC(z), toC(sn)); else ok = f.Update(&s, m.m, toC(z)); CHECK(ok, "update succeeds"); if (t == 0) eqBel(f.PostGet(), b, "system then measurement update"); if (t == 0 && sym_int("once", 0, 1)) break; m.H = band(1, n, 3); m.m->HSet(toM(m.H)); } eqC(f.PostGet()->ExpectedValueGet(), b.x, "mean after the updates"); delete p; REACH("end"); }
CASE(nonlinear) { int n = sym_int("n", 1, 2), in = sym_int("in", 0, 1); QForm q = symQ("h", 1, n, in); Bel b; b.x = symV("x", n); b.P = symS("P", n); Md R = symS("R", 1); Vd nu = symV("nu", 1), z = symV("z", 1), s = symV("s", 1); QPdf ph(q, Gaussian(toC(nu), toS(R))); AnalyticMeasurementModelGaussianUncertainty m(&ph); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); b = correct(b, z, add(q.val(b.x, s), nu), q.jac(b.x), R); if (in) f.Update(&m, toC(z), toC(s)); else f.Update(&m, toC(z)); eqBel(f.PostGet(), b, "linearised correction"); REACH("end"); }
CASE(nonlinear_m2) { int n = 2; QForm q = symQ("h", 2, n, false); Bel b; b.x = symV("x", n); b.P = spd(n, 1); Md R = spd(2, 1); q.A = band(2, n, 0); q.b[0] = 0.5; q.b[1] = 0.75; q.c[0] = -1; q.c[1] = 0.25; if (sym_int("which", 0, 1)) b.x[1] = 1.25; else b.x[0] = -0.5; Vd nu = symV("nu", 2), z = symV("z", 2); QPdf ph(q, Gaussian(toC(nu), toS(R))); AnalyticMeasurementModelGaussianUncertainty m(&ph); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); b = correct(b, z, add(q.val(b.x, Vd()), nu), q.jac(b.x), R); f.Update(&m, toC(z)); eqBel(f.PostGet(), b, "linearised correction"); REACH("end"); }
CASE(nis_value) { int n = sym_int("n", 1, 2), k = sym_int("k", 1, 2); Bel b; b.x = symV("x", n); b.P = symS("P", n); Mea m(symM("H", k, n), symS("R", k), false); ASSUME_NE(det(add(mul(mul(m.H, b.P), tr(m.H)), m.R)), 0.0); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); Vd z = symV("z", k); CHECK_EQ(f.NisGet(m.m, toC(z)), nis(b, z, m.h(b.x, Vd()), m.H, m.R), "normalised innovation squared"); eqBel(f.PostGet(), b, "reading it leaves the belief"); Vd z2 = symV("z2", k); b = correct(b, z2, m.h(b.x, Vd()), m.H, m.R, false); f.Update(m.m, toC(z2)); eqBel(f.PostGet(), b, "correction afterwards"); REACH("end"); }
CASE_T(n3_m2_sym) { one(3, 2, false); }
CASE_T(n5_m1) { one(5, 1, true); }
CASE_T(n4_m3) { part(4, 3, sym_int("sy", 0, 1)); }
// larger states and measurements, long sequences
CASE(sizes) { int n = sym_int("n", 6, 8), k = sym_int("k", 1, 4); ASSUME((n == 6 && k == 4) || (n == 8 && k == 2) || (n == 7 && k == 1)); Bel b; b.x = symV("x", n); b.P = spd(n, 1); Mea m(band(k, n, 2), spd(k, 0), n == 7); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); step(f, m, b, false); eqBel(f.PostGet(), b, "correction"); REACH("end"); }
CASE(many_steps) { int n = 2, N = 8; Bel b; b.x = symV("x", n); b.P = spd(n, 1); Mea a(band(1, n, 1), spd(1, 0), false), c(band(2, n, 2), spd(2, 1), false); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); for (int t = 0; t < N; t++) step(f, t % 3 == 1 ? c : a, b, false); eqBel(f.PostGet(), b, "after many corrections"); REACH("end"); }
// noise that depends on the state and the sensor parameter
CASE(state_noise) { int n = sym_int("n", 1, 2), in = sym_int("in", 0, 1); QForm q = symQ("h", 1, n, in); Bel b; b.x = symV("x", n); b.P = symS("P", n); Md R = symS("R", 1); Vd nu = symV("nu", 1), z = symV("z", 1), s; if (in) s = symV("s", 1); SPdf ph(q, Gaussian(toC(nu), toS(R)), 0.5); AnalyticMeasurementModelGaussianUncertainty m(&ph); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); b = correct(b, z, add(q.val(b.x, s), nu), q.jac(b.x), sCov(R, 0.5, b.x, s)); if (in) f.Update(&m, toC(z), toC(s)); else f.Update(&m, toC(z)); eqBel(f.PostGet(), b, "correction with the noise at the current mean"); REACH("end"); }
static QForm slope(int r, int n, bool in, int k) { QForm q; q.A = band(r, n, k); q.b = Vd(r, 0.0); q.c = Vd(r, 0.0); if (in) q.d = Vd(r, 1.5); return q; }
CASE(state_noise_both) { int in = sym_int("in", 0, 1), sp = sym_int("sp", 0, 1), n = 2; QForm q = slope(n, n, in, 1), h = slope(1, n, sp, 2); Bel b; b.x = symV("x", n); b.P = spd(n, 0); Md Q = spd(n, 2), R = spd(1, 1); Vd mu(n, 0.5), nu(1, 0.25), z = symV("z", 1), u, s; if (in) u = symV("u", 1); if (sp) s = symV("s", 1); SPdf pf(q, Gaussian(toC(mu), toS(Q)), 0.5), ph(h, Gaussian(toC(nu), toS(R)), 0.25); AnalyticSystemModelGaussianUncertainty sm(&pf); AnalyticMeasurementModelGaussianUncertainty m(&ph); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); b = predict(b, add(q.val(b.x, u), mu), q.jac(b.x), sCov(Q, 0.5, b.x, u)); b = correct(b, z, add(h.val(b.x, s), nu), h.jac(b.x), sCov(R, 0.25, b.x, s)); if (in && sp) f.Update(&sm, toC(u), &m, toC(z), toC(s)); else if (in) f.Update(&sm, toC(u), &m, toC(z)); else if (sp) f.Update(&sm, &m, toC(z), toC(s)); else f.Update(&sm, &m, toC(z)); eqBel(f.PostGet(), b, "noise of the measurement at the predicted mean"); REACH("end"); }
CASE(nis_state_noise) { QForm q = symQ("h", 1, 2, false); Bel b; b.x = symV("x", 2); b.P = symS("P", 2); Md R = symS("R", 1); Vd nu = symV("nu", 1), z = symV("z", 1), s; SPdf ph(q, Gaussian(toC(nu), toS(R)), 0.5); AnalyticMeasurementModelGaussianUncertainty m(&ph); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); Md r = sCov(R, 0.5, b.x, s), H = q.jac(b.x); ASSUME_NE(det(add(mul(mul(H, b.P), tr(H)), r)), 0.0); double v = f.NisGet(&m, toC(z)); CHECK_EQ(v, nis(b, z, add(q.val(b.x, s), nu), H, r), "normalised innovation squared"); eqBel(f.PostGet(), b, "reading it leaves the belief"); REACH("end"); }
// models of one size taking turns, one of them changing in between, in any order
CASE(same_size) { int n = 2; Bel b; b.x = symV("x", n); b.P = spd(n, 1); Mea a(band(1, n, 1), spd(1, 0), false), c(band(1, n, 2), spd(1, 1), true); QForm q = slope(1, n, false, 3); Md R = spd(1, 2); Vd nu(1, 0.25); SPdf ph(q, Gaussian(toC(nu), toS(R)), 0.0); AnalyticMeasurementModelGaussianUncertainty m(&ph); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); for (int t = 0; t < 3; t++) { int w = sym_int("which", 0, 2); if (w == 2) { Vd z = symV("z", 1); b = correct(b, z, add(q.val(b.x, Vd()), nu), q.jac(b.x), R, false); f.Update(&m, toC(z)); } else step(f, w ? c : a, b, false); eqBel(f.PostGet(), b, "corrections with models of one size"); if (sym_int("change", 0, 1)) { a.R = spd(1, 2); a.p->AdditiveNoiseSigmaSet(toS(a.R)); c.H = band(1, n, 5); c.m->HSet(toM(c.H)); } } REACH("end"); }
CASE(state_noise_twice) { int in = sym_int("in", 0, 1); QForm q = slope(1, 1, in, 1); Bel b; b.x = symV("x", 1); b.P = spd(1, 0); Md R = spd(1, 1); Vd nu(1, 0.25); SPdf ph(q, Gaussian(toC(nu), toS(R)), 0.5); AnalyticMeasurementModelGaussianUncertainty m(&ph); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); for (int t = 0; t < 2; t++) { Vd z(1, 0.5 + t), s; if (in) s.push_back(t ? 0.25 : sym_real("s")); b = correct(b, z, add(q.val(b.x, s), nu), q.jac(b.x), sCov(R, 0.5, b.x, s), false); if (in) f.Update(&m, toC(z), toC(s)); else f.Update(&m, toC(z)); eqBel(f.PostGet(), b, "correction with the noise at the current mean"); } REACH("end"); }
// far beyond the fully symbolic sizes: fixed values apart from a few free ones
CASE(big) { int n = sym_int("n", 0, 1) ? 12 : 16, k = n == 12 ? 3 : 1; Bel b; b.x = symV("x", n); b.P = spd(n, 1); Mea m(band(k, n, 2), spd(k, 0), false); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); step(f, m, b, false); eqBel(f.PostGet(), b, "correction"); REACH("end"); }
