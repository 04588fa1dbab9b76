// Extended-Kalman particle filter: every particle carries its own Kalman belief, which proposes its move, and the weights correct for that proposal.
#include "common.h"
#include "kf.h"
#include "pf.h"
#include "gauss.h"
#include <filter/EKparticlefilter.h>
#include <pdf/EKF_proposaldensity.h>
typedef MCPdf<ColumnVector> MC;
struct Mod { QForm f, h; Md Q, R; Vd mu, nu; SPdf pf, ph; double ks, km; AnalyticSystemModelGaussianUncertainty s; AnalyticMeasurementModelGaussianUncertainty m; bool in, sp;
  Mod(const QForm &a, const QForm &b, const Md &q, const Md &r, const Vd &x, const Vd &y, double k1 = 0, double k2 = 0) : f(a), h(b), Q(q), R(r), mu(x), nu(y), pf(a, Gaussian(toC(x), toS(q)), k1), ph(b, Gaussian(toC(y), toS(r)), k2), ks(k1), km(k2), s(&pf), m(&ph), in(a.d.size()), sp(b.d.size()) {}
  Vd next(const Vd &x, const Vd &u) const { return add(f.val(x, u), mu); } Vd meas(const Vd &x, const Vd &p) const { return add(h.val(x, p), nu); }
  Md noise(const Vd &x, const Vd &u) const { return sCov(Q, ks, x, in ? u : Vd()); } Md mnoise(const Vd &x, const Vd &p) const { return sCov(R, km, x, sp ? p : Vd()); }
  Bel ekf(const Vd &x, const Md &C, const Vd &u, const Vd &z, const Vd &p) const { Bel b; b.x = x; b.P = C; b = predict(b, next(x, u), f.jac(x), noise(x, u)); return correct(b, z, meas(b.x, p), h.jac(b.x), mnoise(b.x, p), false); } };
static QForm cq(int m, int n, bool in, int k) { QForm q; q.A = band(m, n, k); for (int i = 0; i < m; i++) { q.b.push_back(k % 2 ? 0.5 + i : -0.25); q.c.push_back(i ? 0.25 : 0.0); if (in) q.d.push_back(1.5); } return q; }
static QForm lq(int m, int n, bool in, int k) { QForm q = cq(m, n, in, k); for (int i = 0; i < m; i++) q.b[i] = q.c[i] = 0.0; return q; }
static bool update(EKParticleFilter &f, Mod &M, const Vd &u, const Vd &z, const Vd &p) { return M.in && M.sp ? f.Update(&M.s, toC(u), &M.m, toC(z), toC(p)) : M.in ? f.Update(&M.s, toC(u), &M.m, toC(z)) : M.sp ? f.Update(&M.s, &M.m, toC(z), toC(p)) : f.Update(&M.s, &M.m, toC(z)); }
static Vd drawG(const Bel &b, const Vd &z) { Gaussian g(toC(b.x), toS(b.P)); rng_reset(); queue(z); Sample<ColumnVector> s; g.SampleFrom(s, SampleMthd::DEFAULT, NULL); rng_reset(); Vd r; for (unsigned i = 1; i <= s.ValueGet().rows(); i++) r.push_back(s.ValueGet()(i)); return r; }
// one step of the specification: moves every particle of e, its covariance in C
static void spec(WS &e, std::vector<Md> &C, const Mod &M, const Vd &u, const Vd &z, const Vd &p, const std::vector<Vd> &d) { for (int i = 0; i < e.size(); i++) { Bel b = M.ekf(e.x[i], C[i], u, z, p); Vd x = drawG(b, d[i]); e.w[i] = e.w[i] * dens(M.meas(x, p), M.mnoise(x, p), z) * dens(M.next(e.x[i], u), M.noise(e.x[i], u), x) / dens(b.x, b.P, x); e.x[i] = x; C[i] = b.P; } ASSUME_GT(e.total(), 0.0); e = e.norm(); }
static std::vector<Vd> draws(int n, int d) { std::vector<Vd> z; for (int i = 0; i < n; i++) z.push_back(symV("d", d)); return z; }
static void load(const std::vector<Vd> &z) { rng_reset(); for (const Vd &a : z) queue(a); }
static WS pts(int n, int d) { WS s; for (int i = 0; i < n; i++) { Vd v; for (int j = 0; j < d; j++) v.push_back(((i * 2 + j * 3) % 5) * 0.5 - 1.0); s.x.push_back(v); s.w.push_back(1.0); } return s; }
static void run(WS s, Mod &M, int d, bool free_z, int steps) { int n = s.size(); MC prior(n, d); loadMC(prior, s); s = s.norm(); WS e = s; std::vector<Md> C(n, covOf(s)); { EKParticleFilter f(&prior, 10, 0.0); eqMC(*f.PostGet(), s, "before any update", false); for (int t = 0; t < steps; t++) { bool last = t == steps - 1; std::vector<Vd> g; if (last) g = draws(n, d); else for (int i = 0; i < n; i++) g.push_back(Vd(d, i ? 0.5 : -0.25)); Vd u(1, 0.5 + t), p(1, -0.5), z = last && free_z ? symV("z", M.R.size()) : Vd(M.R.size(), 0.75); spec(e, C, M, u, z, p, g); load(g); CHECK(update(f, M, u, z, p), "update succeeds"); CHECK(rng_unused() == 0 && rng_count() == n * d, "fresh draws for every particle"); CHECK(f.TimeStepGet() == t + 1, "time step"); } eqMC(*f.PostGet(), e, "moved and weighed", false); } eqMC(prior, s, "prior untouched", false); rng_reset(); REACH("end"); }
CASE(step_1) { int n = sym_int("n", 1, 2), in = sym_int("in", 0, 1), sp = sym_int("sp", 0, 1); Mod M(cq(1, 1, in, 1), cq(1, 1, sp, 2), spd(1, 0), spd(1, 1), Vd(1, 0.25), Vd(1, -0.5)); run(pts(n, 1), M, 1, false, 1); }
CASE(step_1z) { int n = sym_int("n", 1, 2), in = sym_int("in", 0, 1), sp = sym_int("sp", 0, 1); Mod M(cq(1, 1, in, 1), cq(1, 1, sp, 2), spd(1, 0), spd(1, 1), Vd(1, 0.25), Vd(1, -0.5)); run(pts(n, 1), M, 1, true, 1); }
CASE(step_3) { Mod M(cq(1, 1, 1, 1), cq(1, 1, 0, 2), spd(1, 0), spd(1, 1), Vd(1, 0.25), Vd(1, -0.5)); run(pts(3, 1), M, 1, true, 1); }
CASE(step_2d) { Mod M(lq(2, 2, 0, 1), lq(1, 2, 0, 2), spd(2, 0), spd(1, 1), Vd(2, 0.25), Vd(1, -0.5)); run(pts(2, 2), M, 2, true, 1); }
// first step: measurement says nothing, so that the covariances become 16 and 25 and, with zero draws, the weights 4/9 and 5/9
static QForm sq() { QForm q = cq(1, 1, 0, 1); q.A[0][0] = 0.0; q.b[0] = 3.0; return q; }
static QForm none() { QForm q = lq(1, 1, 0, 2); q.A[0][0] = 0.0; return q; }
static WS two() { WS s; s.x.push_back(Vd(1, 0.0)); s.x.push_back(Vd(1, 1.0)); s.w = Vd(2, 1.0); return s; }
CASE(two_steps) { int free = sym_int("free", 0, 1), in = sym_int("in", 0, 1); WS s = two(); MC prior(2, 1); loadMC(prior, s); s = s.norm(); WS e = s; std::vector<Md> C(2, covOf(s)); Mod M(sq(), none(), Md(1, Vd(1, 16.0)), spd(1, 1), Vd(1, 0.25), Vd(1, -0.5)), N(lq(1, 1, in, 3), lq(1, 1, 0, 2), spd(1, 2), spd(1, 0), Vd(1, 0.5), Vd(1, 0.25)); EKParticleFilter f(&prior, 10, 0.0); std::vector<Vd> g(2, Vd(1, 0.0)); if (free) g[0][0] = sym_real("d0"); Vd z(1, 0.75), u(1, 0.5), p; spec(e, C, M, u, z, p, g); load(g); update(f, M, u, z, p); eqMC(*f.PostGet(), e, "first step", false); if (!free) z[0] = sym_real("z"); g = draws(2, 1); spec(e, C, N, u, z, p, g); load(g); update(f, N, u, z, p); eqMC(*f.PostGet(), e, "every particle uses its own covariance", false); CHECK(f.TimeStepGet() == 2, "time step"); rng_reset(); REACH("end"); }
static void resampling(bool dyn) { WS s = two(); MC prior(2, 1); loadMC(prior, s); s = s.norm(); WS e = s; std::vector<Md> C(2, covOf(s)); Mod M(sq(), none(), Md(1, Vd(1, 16.0)), spd(1, 1), Vd(1, 0.25), Vd(1, -0.5)), N(lq(1, 1, 0, 3), lq(1, 1, 0, 2), spd(1, 2), spd(1, 0), Vd(1, 0.5), Vd(1, 0.25)); EKParticleFilter f(&prior, dyn ? 0 : 1, dyn ? 1000.0 : 0.0); std::vector<Vd> g(2, Vd(1, 0.0)); Vd z(1, 0.75), u(1, 0.5), p; spec(e, C, M, u, z, p, g); load(g); Vd r = symU("u", 2); if (dyn) queue(r); update(f, M, u, z, p); CHECK(rng_unused() == 0 && rng_count() == (dyn ? 4 : 2), dyn ? "resampled after weighing" : "nothing to resample at the first step"); WS o = e; std::vector<Md> oc = C; Vd ru = ordered(r); std::vector<int> anc(2, -1);
  if (!dyn) eqMC(*f.PostGet(), e, "not yet resampled", false);
  else { std::vector<WeightedSample<ColumnVector> > A = f.PostGet()->ListOfSamplesGet(); CHECK(A.size() == 2, "number of particles"); for (int i = 0; i < 2; i++) { for (int k = 0; k < 2; k++) if (A[i].ValueGet()(1) == o.x[k][0]) anc[i] = k; checkPick(o.w, ru[i], anc[i], "surviving particle"); if (anc[i] < 0) return; e.x[i] = o.x[anc[i]]; e.w[i] = 0.5; C[i] = oc[anc[i]]; } eqMC(*f.PostGet(), e, "after resampling", false); }
  rng_reset(); std::vector<Vd> d = draws(2, 1); if (!dyn) queue(r); for (const Vd &a : d) queue(a); z[0] = 0.5; if (!dyn) z[0] = sym_real("z"); else { d[0][0] = 0.25; rng_reset(); }
  if (dyn) { Vd r2(2, 0.5); queue(r2); spec(e, C, N, u, z, p, d); rng_reset(); for (const Vd &a : d) queue(a); queue(r2); update(f, N, u, z, p); CHECK(rng_unused() == 0 && rng_count() == 4, "resampled again"); std::vector<WeightedSample<ColumnVector> > A = f.PostGet()->ListOfSamplesGet(); for (int i = 0; i < 2; i++) { CHECK(A[i].ValueGet()(1) == e.x[0][0] || A[i].ValueGet()(1) == e.x[1][0], "survivor"); CHECK_EQ(A[i].WeightGet(), 0.5, "uniform weight"); } }
  else { // the survivors are visible through the move: try every pair of ancestors
    std::vector<Vd> keep = d; update(f, N, u, z, p); CHECK(rng_unused() == 0 && rng_count() == 4, "resampled at its time"); std::vector<WeightedSample<ColumnVector> > A = f.PostGet()->ListOfSamplesGet(); for (int i = 0; i < 2; i++) { anc[i] = ru[i] > o.w[0] ? 1 : 0; e.x[i] = o.x[anc[i]]; e.w[i] = 0.5; C[i] = oc[anc[i]]; } spec(e, C, N, u, z, p, keep); eqMC(*f.PostGet(), e, "survivors keep their covariance", false); }
  rng_reset(); REACH("end"); }
CASE(dynamic_resampling) { resampling(true); }
CASE(static_resampling) { resampling(false); }
CASE(zero_draw) { WS s = two(); MC prior(2, 1); loadMC(prior, s); s = s.norm(); WS e = s; std::vector<Md> C(2, covOf(s)); Mod M(sq(), none(), Md(1, Vd(1, 16.0)), spd(1, 1), Vd(1, 0.25), Vd(1, -0.5)); EKParticleFilter f(&prior, 0, 1000.0); std::vector<Vd> g(2, Vd(1, 0.0)); Vd z(1, 0.75), u, p; spec(e, C, M, u, z, p, g); load(g); Vd r(2, 0.0); r[1] = sym_real("u"); ASSUME_GE(r[1], 0.0); ASSUME_LT(r[1], 1.0); queue(r); update(f, M, u, z, p); CHECK(f.PostGet()->SampleGet(0).ValueGet()(1) == e.x[0][0], "the smallest draw picks the first particle"); REACH("end"); }
// the proposal density on its own: the belief of one extended Kalman step
CASE(proposal) { int d = sym_int("d", 1, 2), in = sym_int("in", 0, 1), sp = sym_int("sp", 0, 1); QForm q = cq(d, d, in, 1), h = cq(1, d, sp, 2); Mod M(q, h, spd(d, 0), spd(1, 1), Vd(d, 0.25), Vd(1, -0.5)); EKFProposalDensity P(&M.s, &M.m); CHECK((int)P.NumConditionalArgumentsGet() == 2 + in + sp, "arguments"); Vd x(d, 0.5), u(1, 0.75), p(1, -0.25), z = symV("z", 1); x[0] = sym_real("x"); Md C = spd(d, 2); SymmetricMatrix c = toS(C); P.SampleCovSet(c); int k = 0; P.ConditionalArgumentSet(k++, toC(x)); if (in) P.ConditionalArgumentSet(k++, toC(u)); P.ConditionalArgumentSet(k++, toC(z)); if (sp) P.ConditionalArgumentSet(k++, toC(p)); Bel b; b.x = x; b.P = C; b = predict(b, M.next(x, u), M.f.jac(x), M.Q); b = correct(b, z, M.meas(b.x, p), M.h.jac(b.x), M.R); eqC(P.ExpectedValueGet(), b.x, "mean"); eqS(P.CovarianceGet(), b.P, "covariance"); SymmetricMatrix c2 = toS(spd(d, 1)); P.SampleCovSet(c2); Bel b2; b2.x = x; b2.P = spd(d, 1); b2 = predict(b2, M.next(x, u), M.f.jac(x), M.Q); b2 = correct(b2, z, M.meas(b2.x, p), M.h.jac(b2.x), M.R); eqC(P.ExpectedValueGet(), b2.x, "mean with a new covariance"); eqS(P.CovarianceGet(), b2.P, "covariance with a new covariance"); REACH("end"); }
CASE(proposal_late) { int d = sym_int("d", 1, 2); Mod M(lq(d, d, 0, 1), lq(1, d, 0, 2), spd(d, 0), spd(1, 1), Vd(d, 0.25), Vd(1, -0.5)); EKFProposalDensity P(NULL, NULL); P.SystemModelSet(&M.s); P.MeasurementModelSet(&M.m); Vd x = symV("x", d), z = symV("z", 1), y = symV("y", d); Md C = spd(d, 2); SymmetricMatrix c = toS(C); P.SampleCovSet(c); P.ConditionalArgumentSet(0, toC(x)); P.ConditionalArgumentSet(1, toC(z)); Bel b = M.ekf(x, C, Vd(), z, Vd()); CHECK_EQ((double)P.ProbabilityGet(toC(y)), dens(b.x, b.P, y), "density"); sampling(P, b.x, b.P); REACH("end"); }
// reset: every particle starts again from the covariance of the given set
CASE(reset) { int n = sym_int("n", 1, 3); WS s = two(), s2 = pts(n, 1); MC prior(2, 1), other(n, 1); loadMC(prior, s); loadMC(other, s2); s2 = s2.norm(); WS e = s2; std::vector<Md> C(n, covOf(s2)); Mod N(lq(1, 1, 0, 3), lq(1, 1, 0, 2), spd(1, 2), spd(1, 0), Vd(1, 0.5), Vd(1, 0.25)); { EKParticleFilter f(&prior, 10, 0.0); std::vector<Vd> g(2, Vd(1, 0.5)); Vd z(1, 0.75), u, p; if (sym_int("used", 0, 1)) { load(g); update(f, N, u, z, p); } f.Reset(&other); eqMC(*f.PostGet(), s2, "after reset", false); z[0] = sym_real("z"); g = draws(n, 1); spec(e, C, N, u, z, p, g); load(g); update(f, N, u, z, p); eqMC(*f.PostGet(), e, "update after reset", false); } eqMC(other, s2, "prior survives", false); rng_reset(); REACH("end"); }
// noise that depends on the state and the inputs
CASE(state_noise) { int in = sym_int("in", 0, 1), sp = sym_int("sp", 0, 1); Mod M(lq(1, 1, in, 1), lq(1, 1, sp, 2), spd(1, 0), spd(1, 1), Vd(1, 0.25), Vd(1, -0.5), 0.5); run(pts(2, 1), M, 1, true, 1); }
CASE(proposal_state_noise) { int d = sym_int("d", 1, 2), in = sym_int("in", 0, 1), sp = sym_int("sp", 0, 1); Mod M(cq(d, d, in, 1), cq(1, d, sp, 2), spd(d, 0), spd(1, 1), Vd(d, 0.25), Vd(1, -0.5), 0.5, 0.25); EKFProposalDensity P(&M.s, &M.m); Vd u(1, 0.75), p(1, -0.25), z(1, 1.5); for (int r = 0; r < 2; r++) { Vd x(d, 0.5 - r); x[r && d == 2] = sym_real("x"); Md C = spd(d, 2); if (r && d == 2) C[1][1] = C[1][1] + sym_range("c", 0.0, 8.0); SymmetricMatrix c = toS(C); P.SampleCovSet(c); int k = 0; P.ConditionalArgumentSet(k++, toC(x)); if (in) P.ConditionalArgumentSet(k++, toC(u)); P.ConditionalArgumentSet(k++, toC(z)); if (sp) P.ConditionalArgumentSet(k++, toC(p)); Bel b = M.ekf(x, C, u, z, p); eqC(P.ExpectedValueGet(), b.x, "mean"); eqS(P.CovarianceGet(), b.P, "covariance"); } REACH("end"); }
