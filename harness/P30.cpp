// Rauch-Tung-Striebel smoother: the backward recursion on the filtered belief, linearised at the filtered mean.
#include "common.h"
#include "kf.h"
#include <smoother/rauchtungstriebel.h>
static Bel symB(const char *n, int d) { Bel b; b.x = symV(n, d); b.P = symS(n, d); return b; }
// belief s about the next state, f filtered now, fx = prediction of f's mean, F the Jacobian there
static Bel smooth(const Bel &s, const Bel &f, const Vd &fx, const Md &F, const Md &Q) { Bel p = predict(f, fx, F, Q); ASSUME_NE(det(p.P), 0.0); Md C = mul(mul(f.P, tr(F)), inv(p.P)); Bel r; r.x = add(f.x, mul(C, add(s.x, p.x, -1))); r.P = add(f.P, mul(mul(C, add(s.P, p.P, -1)), tr(C))); return r; }
static void lin(int n, const Bel &s, const Bel &f, const Md &F, const Md &Q) { int in = sym_int("in", 0, 1); Md B = symM("B", n, 2); Vd mu = symV("mu", n), u = symV("u", 2); LinearAnalyticConditionalGaussian *p = linPdf(F, in ? &B : 0, mu, Q); LinearAnalyticSystemModelGaussianUncertainty sm(p); Gaussian ps(toC(s.x), toS(s.P)), pf(toC(f.x), toS(f.P)); { RauchTungStriebel o(&ps); eqBel((Gaussian *)o.PostGet(), s, "starts from the prior"); Vd fx = add(mul(F, f.x), mu); if (in) fx = add(fx, mul(B, u)); Bel e = smooth(s, f, fx, F, Q); bool ok = in ? o.Update(&sm, toC(u), &pf) : o.Update(&sm, &pf); CHECK(ok, "update reports success"); eqBel((Gaussian *)o.PostGet(), e, "smoothed belief"); eqBel(&pf, f, "filtered belief untouched"); eqBel(&ps, s, "prior untouched"); } eqBel(&pf, f, "filtered belief survives"); eqBel(&ps, s, "prior survives"); delete p; REACH("end"); }
CASE(linear_1) { lin(1, symB("s", 1), symB("f", 1), symM("F", 1, 1), symS("Q", 1)); }
CASE(linear_2) { Bel s = symB("s", 2), f; f.x = symV("f", 2); f.P = spd(2, 1); lin(2, s, f, band(2, 2, 1), spd(2, 0)); }
CASE(linear_2q) { Bel s, f; s.x = symV("s", 2); s.P = spd(2, 2); f.x = symV("f", 2); f.P = spd(2, 1); lin(2, s, f, band(2, 2, 3), symS("Q", 2)); }
CASE(linear_2p) { Bel s, f; s.x = symV("s", 2); s.P = spd(2, 2); f.x = symV("f", 2); f.P = symS("f", 2); lin(2, s, f, band(2, 2, 2), spd(2, 0)); }
CASE(linear_2f) { Bel s, f; s.x = symV("s", 2); s.P = spd(2, 2); f.x = symV("f", 2); f.P = spd(2, 1); Md F = band(2, 2, 2); int k = sym_int("k", 0, 3); F[k / 2][k % 2] = sym_real("F"); lin(2, s, f, F, spd(2, 0)); }
CASE(linear_3) { Bel s = symB("s", 3), f; f.x = symV("f", 3); f.P = spd(3, 1); lin(3, s, f, band(3, 3, 1), spd(3, 0)); }
CASE(linear_4) { Bel s, f; s.x = symV("s", 4); s.P = spd(4, 2); f.x = symV("f", 4); f.P = spd(4, 1); lin(4, s, f, band(4, 4, 1), spd(4, 0)); }
CASE_T(linear_5) { Bel s, f; s.x = symV("s", 5); s.P = symS("s", 5); f.x = symV("f", 5); f.P = spd(5, 1); lin(5, s, f, band(5, 5, 1), spd(5, 0)); }
static void quad(int n, QForm q, const Bel &s, const Bel &f, const Md &Q, bool in) { Vd mu = symV("mu", n), u = symV("u", 1); QPdf p(q, Gaussian(toC(mu), toS(Q))); AnalyticSystemModelGaussianUncertainty sm(&p); Gaussian ps(toC(s.x), toS(s.P)), pf(toC(f.x), toS(f.P)); RauchTungStriebel o(&ps); Bel e = smooth(s, f, add(q.val(f.x, u), mu), q.jac(f.x), Q); if (in) o.Update(&sm, toC(u), &pf); else o.Update(&sm, &pf); eqBel((Gaussian *)o.PostGet(), e, "smoothed belief"); eqBel(&pf, f, "filtered belief untouched"); eqBel(&ps, s, "prior untouched"); REACH("end"); }
static QForm cq(int n, bool in) { QForm q; q.A = band(n, n, 1); for (int i = 0; i < n; i++) { q.b.push_back(0.5 + i); q.c.push_back(i ? 0.25 : -1.0); if (in) q.d.push_back(1.5); } return q; }
CASE(nonlinear_1) { int in = sym_int("in", 0, 1); quad(1, symQ("f", 1, 1, in), symB("s", 1), symB("f", 1), symS("Q", 1), in); }
CASE(nonlinear_2) { int in = sym_int("in", 0, 1), w = sym_int("w", 0, 1); Bel s = symB("s", 2), f; f.x = symV("f", 2); f.x[w] = 0.75; f.P = spd(2, 1); quad(2, cq(2, in), s, f, spd(2, 0), in); }
CASE_T(nonlinear_2s) { int in = sym_int("in", 0, 1); Bel s = symB("s", 2), f; f.x = symV("f", 2); f.P = spd(2, 1); quad(2, cq(2, in), s, f, spd(2, 0), in); }
CASE(sequence_1) { int N = sym_int("N", 1, 3); Bel s = symB("s", 1); Gaussian ps(toC(s.x), toS(s.P)); RauchTungStriebel o(&ps); for (int t = 0; t < N; t++) { Bel f; f.x = symV("f", 1); f.P = spd(1, t); QForm q = cq(1, false); q.b[0] = t % 2 ? 0.0 : 0.5; Md Q = spd(1, t + 1); Vd mu(1, 0.25); QPdf p(q, Gaussian(toC(mu), toS(Q))); AnalyticSystemModelGaussianUncertainty sm(&p); Gaussian pf(toC(f.x), toS(f.P)); s = smooth(s, f, add(q.val(f.x, Vd()), mu), q.jac(f.x), Q); o.Update(&sm, &pf); eqBel((Gaussian *)o.PostGet(), s, "backward sweep"); } REACH("end"); }
CASE(sequence_2) { Bel s = symB("s", 2); Gaussian ps(toC(s.x), toS(s.P)); RauchTungStriebel o(&ps); for (int t = 0; t < 3; t++) { Bel f; f.x = symV("f", 2); f.P = spd(2, t); Md F = band(2, 2, t), Q = spd(2, t + 1); Vd mu(2, 0.25); LinearAnalyticConditionalGaussian *p = linPdf(F, 0, mu, Q); LinearAnalyticSystemModelGaussianUncertainty sm(p); Gaussian pf(toC(f.x), toS(f.P)); s = smooth(s, f, add(mul(F, f.x), mu), F, Q); o.Update(&sm, &pf); delete p; } eqBel((Gaussian *)o.PostGet(), s, "backward sweep"); REACH("end"); }
// filter forward, smooth back: equals conditioning the joint belief of both states on the measurement
CASE(joint) { Md F = band(2, 2, 1), Q = spd(2, 0), H = band(1, 2, 2), R = spd(1, 1); Bel b; b.x = symV("x", 2); b.P = spd(2, 2); Vd z = symV("z", 1), mu(2, 0.5), nu(1, -0.25); LinearAnalyticConditionalGaussian *p = linPdf(F, 0, mu, Q), *m = linPdf(H, 0, nu, R); LinearAnalyticSystemModelGaussianUncertainty sm(p); LinearAnalyticMeasurementModelGaussianUncertainty mm(m); Gaussian prior(toC(b.x), toS(b.P)); ExtendedKalmanFilter f(&prior); f.Update(&sm, &mm, toC(z)); RauchTungStriebel o(f.PostGet()); o.Update(&sm, &prior); Md G = mul(H, F), S = add(mul(mul(H, Q), tr(H)), R); Bel e = correct(b, z, add(mul(H, add(mul(F, b.x), mu)), nu), G, S); eqBel((Gaussian *)o.PostGet(), e, "belief given the later measurement"); delete p; delete m; REACH("end"); }
// larger states and long sweeps
CASE(sizes) { int n = sym_int("n", 5, 7), in = sym_int("in", 0, 1); ASSUME(n != 6); Bel s, f; s.x = symV("s", n); s.P = spd(n, 2); s.P[0][0] = sym_real("p"); f.x = symV("f", n); f.P = spd(n, 1); Md F = band(n, n, 1), Q = spd(n, 0), B = band(n, 2, 4); Vd mu = symV("mu", n), u = symV("u", 2); LinearAnalyticConditionalGaussian *p = linPdf(F, in ? &B : 0, mu, Q); LinearAnalyticSystemModelGaussianUncertainty sm(p); Gaussian ps(toC(s.x), toS(s.P)), pf(toC(f.x), toS(f.P)); RauchTungStriebel o(&ps); Vd fx = add(mul(F, f.x), mu); if (in) fx = add(fx, mul(B, u)); Bel e = smooth(s, f, fx, F, Q); if (in) o.Update(&sm, toC(u), &pf); else o.Update(&sm, &pf); eqBel((Gaussian *)o.PostGet(), e, "smoothed belief"); eqBel(&pf, f, "filtered belief untouched"); eqBel(&ps, s, "prior untouched"); delete p; REACH("end"); }
CASE(many_steps) { Bel s = symB("s", 2); Gaussian ps(toC(s.x), toS(s.P)); RauchTungStriebel o(&ps); for (int t = 0; t < 8; t++) { Bel f; f.x = symV("f", 2); f.P = spd(2, t); Md F = band(2, 2, t), Q = spd(2, t + 1); Vd mu(2, 0.25); LinearAnalyticConditionalGaussian *p = linPdf(F, 0, mu, Q); LinearAnalyticSystemModelGaussianUncertainty sm(p); Gaussian pf(toC(f.x), toS(f.P)); s = smooth(s, f, add(mul(F, f.x), mu), F, Q); o.Update(&sm, &pf); delete p; } eqBel((Gaussian *)o.PostGet(), s, "long backward sweep"); REACH("end"); }
// noise that depends on the state and the input: taken at the filtered mean
CASE(state_noise) { int n = sym_int("n", 1, 2), in = sym_int("in", 0, 1); Bel s = symB("s", n), f; f.x = symV("f", n); f.P = spd(n, 1); if (n == 2) f.x[1] = 0.75; QForm q = cq(n, in); Md Q = spd(n, 0); Vd mu = symV("mu", n), u; if (in) u.push_back(n == 1 ? sym_real("u") : 0.5); SPdf p(q, Gaussian(toC(mu), toS(Q)), 0.5); AnalyticSystemModelGaussianUncertainty sm(&p); Gaussian ps(toC(s.x), toS(s.P)), pf(toC(f.x), toS(f.P)); RauchTungStriebel o(&ps); Bel e = smooth(s, f, add(q.val(f.x, u), mu), q.jac(f.x), sCov(Q, 0.5, f.x, u)); if (in) o.Update(&sm, toC(u), &pf); else o.Update(&sm, &pf); eqBel((Gaussian *)o.PostGet(), e, "smoothed belief"); REACH("end"); }
