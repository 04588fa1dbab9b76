// Iterated extended Kalman filter: every iteration linearises at the latest iterate, iteration ends at the limit or when the step is small.
#include "common.h"
#include "kf.h"
#include <filter/iteratedextendedkalmanfilter.h>
#include <filter/innovationCheck.h>
template <class H, class J> static Bel iekf(const Bel &b, const Vd &z, H h, J jac, const Md &R, int it, std::vector<Vd> *steps = 0, double thr = -1, bool *stopped = 0) {
  Vd xi = b.x; Md Hi, K; for (int i = 0; i < it; i++) { Vd prev = xi; Hi = jac(xi); Md S = add(mul(mul(Hi, b.P), tr(Hi)), R); ASSUME_NE(det(S), 0.0); K = mul(mul(b.P, tr(Hi)), inv(S)); Vd Z = add(h(xi), mul(Hi, add(b.x, xi, -1))); xi = add(b.x, mul(K, add(z, Z, -1))); Vd st = add(xi, prev, -1); if (steps) steps->push_back(st); if (thr >= 0 && !(dot(st, st) >= thr)) { if (stopped) *stopped = true; break; } }
  Bel r; r.x = xi; r.P = add(b.P, mul(mul(K, Hi), b.P), -1); return r; }
static void nonlin(int n, int it, bool in, QForm q, Bel b, Md R, double thr = -1) { Vd nu = symV("nu", R.size()), z = symV("z", R.size()), s = symV("s", 1); QPdf ph(q, Gaussian(toC(nu), toS(R))); AnalyticMeasurementModelGaussianUncertainty m(&ph); Bel b0 = b; Gaussian prior(toC(b.x), toS(b.P)); InnovationCheck ic(thr); { IteratedExtendedKalmanFilter f(&prior, it, thr >= 0 ? &ic : 0); auto h = [&](const Vd &x) { return add(q.val(x, s), nu); }; auto J = [&](const Vd &x) { return q.jac(x); }; std::vector<Vd> st; b = iekf(b, z, h, J, R, it, &st, thr); if (in) f.Update(&m, toC(z), toC(s)); else f.Update(&m, toC(z)); eqBel(f.PostGet(), b, "iterated correction"); } eqBel(&prior, b0, "prior not touched"); REACH("end"); }
static QForm cq(int r, int n, bool in) { QForm q; q.A = band(r, n, 1); for (int i = 0; i < r; i++) { q.b.push_back(0.5 + i); q.c.push_back(i ? 0.25 : -1.0); if (in) q.d.push_back(1.5); } return q; }
CASE(one_iteration) { int n = sym_int("n", 1, 2), in = sym_int("in", 0, 1); Bel b; b.x = symV("x", n); b.P = symS("P", n); nonlin(n, 1, in, symQ("h", 1, n, in), b, symS("R", 1)); }
CASE(two_iterations) { int in = sym_int("in", 0, 1); Bel b; b.x = symV("x", 1); b.P = symS("P", 1); nonlin(1, 2, in, cq(1, 1, in), b, symS("R", 1)); }
CASE(three_iterations) { Bel b; b.x = symV("x", 1); b.P = spd(1, 0); nonlin(1, 3, false, cq(1, 1, false), b, spd(1, 1)); }
CASE(two_dim) { Bel b; b.x = symV("x", 2); b.P = spd(2, 0); if (sym_int("which", 0, 1)) b.x[0] = 0.5; else b.x[1] = -0.25; nonlin(2, 2, false, cq(1, 2, false), b, spd(1, 0)); }
CASE(threshold_many) { int it = sym_int("it", 3, 4); Bel b; b.x = Vd(1, 0.75); b.P = spd(1, 0); double t = sym_real("thr"); ASSUME_GT(t, 0.0); nonlin(1, it, false, cq(1, 1, false), b, spd(1, 1), t); }
CASE(threshold) { Bel b; b.x = symV("x", 1); b.P = spd(1, 0); double t = sym_real("thr"); ASSUME_GT(t, 0.0); nonlin(1, 2, false, cq(1, 1, false), b, spd(1, 1), t); }
CASE(threshold_value) { int d = sym_int("d", 1, 3); double t = sym_real("t"); Vd v = symV("v", d); InnovationCheck c(t); bool go = c.check(toC(v)); if (go) CHECK_GE(dot(v, v), t, "goes on for a large step"); else CHECK_LT(dot(v, v), t, "stops for a small step"); REACH("end"); }
static void linear(int n, int k, int it, bool in, const Md &H, const Md &R, Bel b) { Md J = symM("J", k, 2); Vd nu = symV("nu", k); LinearAnalyticConditionalGaussian *p = linPdf(H, in ? &J : 0, nu, R); LinearAnalyticMeasurementModelGaussianUncertainty m(p); Gaussian prior(toC(b.x), toS(b.P)); IteratedExtendedKalmanFilter f(&prior, it); Vd z = symV("z", k), s = symV("s", 2); Vd h = add(mul(H, b.x), nu); if (in) h = add(h, mul(J, s)); b = correct(b, z, h, H, R); if (in) f.Update(&m, toC(z), toC(s)); else f.Update(&m, toC(z)); eqBel(f.PostGet(), b, "a linear model needs no iteration"); delete p; REACH("end"); }
CASE(linear_1) { Bel b; b.x = symV("x", 1); b.P = symS("P", 1); linear(1, 1, sym_int("it", 1, 3), sym_int("in", 0, 1), symM("H", 1, 1), symS("R", 1), b); }
CASE(linear_2) { Bel b; b.x = symV("x", 2); b.P = symS("P", 2); linear(2, 1, 2, sym_int("in", 0, 1), symM("H", 1, 2), symS("R", 1), b); }
CASE(linear_m2) { Bel b; b.x = symV("x", 2); b.P = spd(2, 0); Md H = band(2, 2, 1); H[0][1] = sym_real("h"); linear(2, 2, 2, false, H, spd(2, 1), b); }
CASE(linear_n3) { Bel b; b.x = symV("x", 3); b.P = spd(3, 0); int k = sym_int("k", 1, 3); linear(3, k, 2, true, band(k, 3, 2), spd(k, 1), b); }
CASE(predict) { int n = sym_int("n", 1, 3), in = sym_int("in", 0, 1); QForm q = symQ("f", n, n, in); Bel b; b.x = symV("x", n); b.P = symS("P", n); Md Q = symS("Q", n); Vd mu = symV("mu", n), u = symV("u", 1); QPdf pf(q, Gaussian(toC(mu), toS(Q))); AnalyticSystemModelGaussianUncertainty s(&pf); Gaussian prior(toC(b.x), toS(b.P)); IteratedExtendedKalmanFilter f(&prior, 2); b = predict(b, add(q.val(b.x, u), mu), q.jac(b.x), Q); if (in) f.Update(&s, toC(u)); else f.Update(&s); eqBel(f.PostGet(), b, "linearised prediction"); REACH("end"); }
CASE(alternating_sizes) { int n = 2; Bel b; b.x = symV("x", n); b.P = spd(n, 1); Gaussian prior(toC(b.x), toS(b.P)); IteratedExtendedKalmanFilter f(&prior, sym_int("it", 1, 2)); int pre = sym_int("pre", 0, 2); if (pre == 1) { f.AllocateMeasModel(2u); f.AllocateMeasModelIExt(1u); } else if (pre == 2) { std::vector<unsigned> d; d.push_back(3); d.push_back(1); d.push_back(3); f.AllocateMeasModel(d); f.AllocateMeasModelIExt(d); } for (int t = 0; t < 3; t++) { int k = sym_int("k", 1, 3); Md H = band(k, n, t), R = spd(k, t); Vd nu(k, 0.0), z = symV("z", k); LinearAnalyticConditionalGaussian *p = linPdf(H, 0, nu, R); LinearAnalyticMeasurementModelGaussianUncertainty m(p); f.Update(&m, toC(z)); b = correct(b, z, mul(H, b.x), H, R, false); delete p; } eqBel(f.PostGet(), b, "measurements of different size"); REACH("end"); }
CASE(combined) { int in = sym_int("in", 0, 1), sp = sym_int("sp", 0, 1); Bel b; b.x = symV("x", 1); b.P = spd(1, 1); QForm q = cq(1, 1, in), g = cq(1, 1, sp); g.b[0] = -0.25; Md Q = spd(1, 0), R = spd(1, 2); Vd mu = symV("mu", 1), nu(1, 0.5), u = symV("u", 1), s = symV("s", 1), z = symV("z", 1); QPdf pf(q, Gaussian(toC(mu), toS(Q))), ph(g, Gaussian(toC(nu), toS(R))); AnalyticSystemModelGaussianUncertainty sm(&pf); AnalyticMeasurementModelGaussianUncertainty m(&ph); Gaussian prior(toC(b.x), toS(b.P)); IteratedExtendedKalmanFilter f(&prior, 1); b = predict(b, add(q.val(b.x, u), mu), q.jac(b.x), Q); b = iekf(b, z, [&](const Vd &x) { return add(g.val(x, s), nu); }, [&](const Vd &x) { return g.jac(x); }, R, 1); if (in && sp) f.Update(&sm, toC(u), &m, toC(z), toC(s)); else if (in) f.Update(&sm, toC(u), &m, toC(z)); else if (sp) f.Update(&sm, &m, toC(z), toC(s)); else f.Update(&sm, &m, toC(z)); eqBel(f.PostGet(), b, "prediction and correction in one update"); REACH("end"); }
// larger problems, many iterations, long sequences
CASE(sizes) { int n = sym_int("n", 5, 8), k = n == 5 ? 4 : n == 6 ? 2 : 3; ASSUME(n != 7); Bel b; b.x = symV("x", n); b.P = spd(n, 0); linear(n, k, n == 5 ? 6 : 2, n == 6, band(k, n, 2), spd(k, 1), b); }
CASE(many_iterations) { Bel b; b.x = Vd(1, 0.75); b.P = spd(1, 0); b.P[0][0] = sym_real("p"); ASSUME_GT(b.P[0][0], 0.0); linear(1, 1, sym_int("it", 4, 9), false, band(1, 1, 1), spd(1, 1), b); }
// noise that depends on the state and the sensor parameter: every iteration takes it at its own linearisation point
CASE(state_noise) { int in = sym_int("in", 0, 1), it = sym_int("it", 1, 3), free = sym_int("free", 0, 1); QForm q = cq(1, 1, in); Bel b; b.x = Vd(1, 0.75); b.P = spd(1, 0); Md R = spd(1, 1); Vd nu(1, 0.25), z(1, 1.5), s; if (free) z[0] = sym_real("z"); else b.x[0] = sym_real("x"); if (it == 3) { q.b[0] = 0.0; q.A[0][0] = 1.0; } if (in) s = Vd(1, -0.5); SPdf ph(q, Gaussian(toC(nu), toS(R)), 0.5); AnalyticMeasurementModelGaussianUncertainty m(&ph); Gaussian prior(toC(b.x), toS(b.P)); IteratedExtendedKalmanFilter f(&prior, it); Vd xi = b.x; Md H, Ri, K; for (int i = 0; i < it; i++) { H = q.jac(xi); Ri = sCov(R, 0.5, xi, s); Md S = add(mul(mul(H, b.P), tr(H)), Ri); ASSUME_NE(det(S), 0.0); K = mul(mul(b.P, tr(H)), inv(S)); Vd Z = add(add(q.val(xi, s), nu), mul(H, add(b.x, xi, -1))); xi = add(b.x, mul(K, add(z, Z, -1))); } b.x = xi; b.P = add(b.P, mul(mul(K, H), b.P), -1); if (in) f.Update(&m, toC(z), toC(s)); else f.Update(&m, toC(z)); eqBel(f.PostGet(), b, "iterated correction"); REACH("end"); }
CASE(state_noise_predict) { int n = sym_int("n", 1, 2), in = sym_int("in", 0, 1); QForm q = symQ("f", n, n, in); Bel b; b.x = symV("x", n); b.P = symS("P", n); Md Q = symS("Q", n); Vd mu = symV("mu", n), u; if (in) u = symV("u", 1); SPdf pf(q, Gaussian(toC(mu), toS(Q)), 0.5); AnalyticSystemModelGaussianUncertainty s(&pf); Gaussian prior(toC(b.x), toS(b.P)); IteratedExtendedKalmanFilter f(&prior, 2); b = predict(b, add(q.val(b.x, u), mu), q.jac(b.x), sCov(Q, 0.5, b.x, u)); if (in) f.Update(&s, toC(u)); else f.Update(&s); eqBel(f.PostGet(), b, "prediction with the noise at the current mean"); REACH("end"); }
// models of one size taking turns
CASE(same_size) { int n = 2; Bel b; b.x = symV("x", n); b.P = spd(n, 1); Gaussian prior(toC(b.x), toS(b.P)); IteratedExtendedKalmanFilter f(&prior, sym_int("it", 1, 2)); Md H[2] = {band(1, n, 1), band(1, n, 2)}, R[2] = {spd(1, 0), spd(1, 2)}; Vd nu(1, 0.5); LinearAnalyticConditionalGaussian *p[2] = {linPdf(H[0], 0, nu, R[0]), linPdf(H[1], 0, nu, R[1])}; LinearAnalyticMeasurementModelGaussianUncertainty m0(p[0]), m1(p[1]); for (int t = 0; t < 3; t++) { int w = sym_int("which", 0, 1); Vd z = symV("z", 1); b = correct(b, z, add(mul(H[w], b.x), nu), H[w], R[w], false); f.Update(w ? &m1 : &m0, toC(z)); eqBel(f.PostGet(), b, "corrections with models of one size"); if (t == 0 && sym_int("change", 0, 1)) { R[w] = spd(1, 1); p[w]->AdditiveNoiseSigmaSet(toS(R[w])); } } delete p[0]; delete p[1]; REACH("end"); }
// far beyond the fully symbolic sizes: fixed values apart from a few free ones
CASE(big) { int n = sym_int("n", 0, 1) ? 11 : 14, k = n == 11 ? 3 : 1; Bel b; b.x = symV("x", n); b.P = spd(n, 0); linear(n, k, 2, false, band(k, n, 2), spd(k, 1), b); }
