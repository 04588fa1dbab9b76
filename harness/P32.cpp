// Reset restarts a filter from the given belief: it behaves like a new filter and the belief stays the caller's own.
#include "common.h"
#include "kf.h"
#include "pf.h"
#include <filter/iteratedextendedkalmanfilter.h>
#include <filter/histogramfilter.h>
#include <filter/mixtureBootstrapFilter.h>
#include <smoother/rauchtungstriebel.h>
#include <smoother/particlesmoother.h>
#include <pdf/discreteconditionalpdf.h>
#include <pdf/mixture.h>
typedef BootstrapFilter<ColumnVector, ColumnVector> BF; typedef MCPdf<ColumnVector> MC; typedef MixtureBootstrapFilter<ColumnVector, ColumnVector> MBF; typedef Mixture<ColumnVector> Mix;
static Bel symBel(const char *n, int d) { Bel b; b.x = symV(n, d); b.P = symS(n, d); return b; }
static Bel bel(Pdf<ColumnVector> *g) { Bel b; ColumnVector x = g->ExpectedValueGet(); SymmetricMatrix P = g->CovarianceGet(); for (unsigned i = 1; i <= x.rows(); i++) { b.x.push_back(x(i)); b.P.push_back(Vd()); for (unsigned j = 1; j <= x.rows(); j++) b.P[i - 1].push_back(P(i, j)); } return b; }
static void kalman(int kind) { int n = sym_int("n", 1, 2), used = sym_int("used", 0, 2), twice = sym_int("twice", 0, 1); Bel a, b, c; a.x = symV("a", n); b.x = symV("b", n); c.x = symV("c", n); a.P = spd(n, 0); b.P = spd(n, 1); c.P = spd(n, 2); Gaussian pa(toC(a.x), toS(a.P)), pb(toC(b.x), toS(b.P)), pc(toC(c.x), toS(c.P)); LinearAnalyticConditionalGaussian *s = linPdf(band(n, n, 1), 0, Vd(n, 0.5), spd(n, 1)), *m = linPdf(band(1, n, 2), 0, Vd(1, 0.25), spd(1, 2)); LinearAnalyticSystemModelGaussianUncertainty sm(s); LinearAnalyticMeasurementModelGaussianUncertainty mm(m); Vd z = symV("z", 1); { KalmanFilter *f, *g; if (kind) { f = new IteratedExtendedKalmanFilter(&pa, 2); g = new IteratedExtendedKalmanFilter(&pb, 2); } else { f = new ExtendedKalmanFilter(&pa); g = new ExtendedKalmanFilter(&pb); } if (used & 1) f->Update(&sm); if (used & 2) f->Update(&mm, toC(z)); if (twice) { f->Reset(&pc); f->Update(&sm); } f->Reset(&pb); eqBel(f->PostGet(), b, "posterior after reset"); eqBel(&pa, a, "first prior"); f->Update(&sm); eqBel(&pb, b, "prior after an update"); g->Update(&sm); f->Update(&mm, toC(z)); g->Update(&mm, toC(z)); eqBel(f->PostGet(), bel(g->PostGet()), "like a new filter"); eqBel(&pb, b, "prior after updates"); delete f; delete g; } eqBel(&pa, a, "first prior survives"); eqBel(&pb, b, "prior survives"); eqBel(&pc, c, "other prior survives"); delete s; delete m; REACH("end"); }
CASE(ekf) { kalman(0); }
CASE(iekf) { kalman(1); }
CASE(ekf_dimension) { Bel a = symBel("a", 1), b = symBel("b", 2); Gaussian pa(toC(a.x), toS(a.P)), pb(toC(b.x), toS(b.P)); LinearAnalyticConditionalGaussian *s = linPdf(band(2, 2, 1), 0, Vd(2, 0.5), spd(2, 1)); LinearAnalyticSystemModelGaussianUncertainty sm(s); { ExtendedKalmanFilter f(&pa); f.Reset(&pb); f.Update(&sm); Bel e = predict(b, add(mul(band(2, 2, 1), b.x), Vd(2, 0.5)), band(2, 2, 1), spd(2, 1)); eqBel(f.PostGet(), e, "prediction"); } eqBel(&pb, b, "prior survives"); delete s; REACH("end"); }
CASE(rts) { int n = sym_int("n", 1, 2), used = sym_int("used", 0, 1); Bel a, b; a.x = symV("a", n); b.x = symV("b", n); a.P = symS("a", n); b.P = symS("b", n); Gaussian pa(toC(a.x), toS(a.P)), pb(toC(b.x), toS(b.P)), fil(toC(Vd(n, 0.75)), toS(spd(n, 0))); LinearAnalyticConditionalGaussian *s = linPdf(band(n, n, 1), 0, Vd(n, 0.5), spd(n, 1)); LinearAnalyticSystemModelGaussianUncertainty sm(s); { RauchTungStriebel f(&pa), g(&pb); if (used) f.Update(&sm, &fil); f.Reset(&pb); eqBel((Gaussian *)f.PostGet(), b, "posterior after reset"); f.Update(&sm, &fil); g.Update(&sm, &fil); eqBel((Gaussian *)f.PostGet(), bel(g.PostGet()), "like a new smoother"); eqBel(&pb, b, "prior after an update"); } eqBel(&pa, a, "first prior survives"); eqBel(&pb, b, "prior survives"); delete s; REACH("end"); }
static Vd dist(const char *nme, int n) { Vd v = symV(nme, n - 1); double s = 0; for (double x : v) { ASSUME_GE(x, 0.0); s = s + x; } v.push_back(1.0 - s); ASSUME_GE(v[n - 1], 0.0); return v; }
static void eqD(DiscretePdf *d, const Vd &p, const char *w) { CHECK(d->NumStatesGet() == p.size(), "number of states"); for (size_t i = 0; i < p.size(); i++) CHECK_EQ((double)d->ProbabilityGet(i), p[i], w); }
CASE(histogram) { int n = sym_int("n", 1, 3), n0 = sym_int("n0", 1, 3), twice = sym_int("twice", 0, 1); Vd p = dist("p", n0), q = dist("q", n); std::vector<Probability> vp, vq; for (double x : p) vp.push_back(x); for (double x : q) vq.push_back(x); DiscretePdf pa(n0), pb(n); pa.ProbabilitiesSet(vp); pb.ProbabilitiesSet(vq); int D[1] = {n}; DiscreteConditionalPdf T(n, 1, D); Md t; for (int c = 0; c < n; c++) { t.push_back(dist("t", n)); for (int i = 0; i < n; i++) T.ProbabilitySet(t[c][i], i, std::vector<int>(1, c)); } SystemModel<int> sm(&T); { HistogramFilter<int> f(&pa); f.Reset(&pb); if (twice) { f.Update(&sm); f.Reset(&pb); } eqD(f.PostGet(), q, "posterior after reset"); f.Update(&sm); Vd e(n, 0.0); for (int i = 0; i < n; i++) for (int c = 0; c < n; c++) e[i] = e[i] + t[c][i] * q[c]; eqD(f.PostGet(), e, "prediction after reset"); eqD(&pb, q, "prior after an update"); } eqD(&pa, p, "first prior survives"); eqD(&pb, q, "prior survives"); REACH("end"); }
CASE(particle) { int n = sym_int("n", 1, 3), n0 = sym_int("n0", 1, 3), own = sym_int("own", 0, 1), used = sym_int("used", 0, 1); WS a = tagWS(n0), b = tagWS(n); MC pa(n0, 2), pb(n, 2), post(n0, 2); loadMC(pa, a); loadMC(pb, b); a = a.norm(); b = b.norm(); Tags P("prop"), L("like"); TPdf prop(&P, 2, false, 100), mp(&L, 1, false); SystemModel<ColumnVector> sm(&prop); MeasurementModel<ColumnVector, ColumnVector> mm(&mp); { BF *f = own ? new BF(&pa, &post, 20) : new BF(&pa, 20); rng_reset(); if (used) f->Update(&sm); f->Reset(&pb); eqMC(*f->PostGet(), b, "posterior after reset", false); if (own) CHECK(f->PostGet() == &post, "the caller's posterior is still used"); rng_reset(); Vd z = symV("z", n); queue(z); f->Update(&sm); WS e = b; for (int i = 0; i < n; i++) { e.x[i][0] = z[i]; e.x[i][1] = b.x[i][1] + 100; } eqMC(*f->PostGet(), e, "moved after reset", false); eqMC(pb, b, "prior after an update", false); for (int i = 0; i < n; i++) e.w[i] = e.w[i] * L.at(5, (int)e.x[i][1], 0); ASSUME_GT(e.total(), 0.0); f->Update(&mm, toC(Vd(1, 5.0))); eqMC(*f->PostGet(), e.norm(), "weighed after reset", false); eqMC(pb, b, "prior after updates", false); delete f; } eqMC(pa, a, "first prior survives", false); eqMC(pb, b, "prior survives", false); rng_reset(); REACH("end"); }
CASE(mixture) { int k0 = sym_int("k0", 1, 2), k = sym_int("k", 1, 2), n = sym_int("n", 1, 2), used = sym_int("used", 0, 1); Mix pa(2u), pb(2u); std::vector<WS> B; Vd w; double tot = 0; for (int c = 0; c < k0; c++) { MC q(1, 2); loadMC(q, tagWS(1)); Probability one = 1.0; pa.AddComponent(q, one); } for (int c = 0; c < k; c++) { MC q(n, 2); WS s = tagWS(n); loadMC(q, s); B.push_back(s.norm()); w.push_back(sym_real("cw")); ASSUME_GT(w[c], 0.0); ASSUME_LT(w[c], 1.0); } std::vector<Probability> W; for (int c = 0; c < k; c++) { tot = tot + w[c]; W.push_back(w[c]); MC q(n, 2); loadMC(q, B[c]); Probability one = 1.0; pb.AddComponent(q, one); } pb.WeightsSet(W); Tags P("prop"), L("like"); TPdf prop(&P, 2, false, 100), mp(&L, 1, false); SystemModel<ColumnVector> sm(&prop); MeasurementModel<ColumnVector, ColumnVector> mm(&mp); { MBF f(&pa, 20); rng_reset(); if (used) f.Update(&sm); f.Reset(&pb); CHECK(f.PostGet()->NumComponentsGet() == k, "components after reset"); rng_reset(); Vd z = symV("z", n * k); queue(z); f.Update(&sm); for (int c = 0; c < k; c++) { WS e = B[c]; for (int i = 0; i < n; i++) { e.x[i][0] = z[c * n + i]; e.x[i][1] = e.x[i][1] + 100; } eqMC(*(MC *)f.PostGet()->ComponentGet(c), e, "moved after reset", false); CHECK_EQ((double)f.PostGet()->WeightGet(c), w[c] / tot, "component weight"); } for (int c = 0; c < k; c++) { eqMC(*(MC *)pb.ComponentGet(c), B[c], "prior after an update", false); CHECK_EQ((double)pb.WeightGet(c), w[c] / tot, "component weight of the prior"); } } for (int c = 0; c < k; c++) eqMC(*(MC *)pb.ComponentGet(c), B[c], "prior survives", false); rng_reset(); REACH("end"); }
CASE(particle_smoother) { int n = sym_int("n", 1, 2), used = sym_int("used", 0, 1); WS a = tagWS(n), b = tagWS(n), c = tagWS(n); for (int i = 0; i < n; i++) { b.x[i][1] = 20 + i; c.x[i][1] = 30 + i; } MC pa(n, 2), pb(n, 2), fil(n, 2); loadMC(pa, a); loadMC(pb, b); loadMC(fil, c); a = a.norm(); b = b.norm(); Tags P("prop"); TPdf prop(&P, 2, false, 100); SystemModel<ColumnVector> sm(&prop); { ParticleSmoother<ColumnVector> f(&pa); f.Reset(&pb); if (used) f.Reset(&pb); eqMC(*(MC *)f.PostGet(), b, "posterior after reset", false); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { ASSUME_GT(P.at(20 + i, 30 + j, 0), 0.0); ASSUME_GT(c.w[j], 0.0); } f.Update(&sm, &fil); eqMC(pb, b, "prior after an update", false); } eqMC(pa, a, "first prior survives", false); eqMC(pb, b, "prior survives", false); REACH("end"); }
// larger beliefs
CASE(sizes_kalman) { int n = sym_int("n", 3, 7), n0 = sym_int("n0", 2, 5), it = sym_int("iterated", 0, 1); ASSUME((n == 3 || n == 7) && (n0 == 2 || n0 == 5)); Bel a, b; a.x = Vd(n0, 1.0); a.P = spd(n0, 0); b.x = symV("b", n); b.P = spd(n, 1); b.P[0][0] = sym_real("p"); Gaussian pa(toC(a.x), toS(a.P)), pb(toC(b.x), toS(b.P)); LinearAnalyticConditionalGaussian *s = linPdf(band(n, n, 1), 0, Vd(n, 0.5), spd(n, 1)); LinearAnalyticSystemModelGaussianUncertainty sm(s); { KalmanFilter *f = it ? (KalmanFilter *)new IteratedExtendedKalmanFilter(&pa, 2) : new ExtendedKalmanFilter(&pa); f->Reset(&pb); eqBel(f->PostGet(), b, "posterior after reset"); f->Update(&sm); eqBel(f->PostGet(), predict(b, add(mul(band(n, n, 1), b.x), Vd(n, 0.5)), band(n, n, 1), spd(n, 1)), "prediction after reset"); eqBel(&pb, b, "prior after an update"); delete f; } eqBel(&pa, a, "first prior survives"); eqBel(&pb, b, "prior survives"); delete s; REACH("end"); }
CASE(sizes_particle) { int n = sym_int("n", 2, 8), n0 = sym_int("n0", 2, 8), own = sym_int("own", 0, 1); ASSUME((n == 2 || n == 8) && (n0 == 2 || n0 == 8)); WS a = bigWS(n0, -1), b = bigWS(n, n - 1); MC pa(n0, 2), pb(n, 2), post(n0, 2); loadMC(pa, a); loadMC(pb, b); a = a.norm(); b = b.norm(); Tags P("prop"); P.fix(-1, -1); TPdf prop(&P, 2, false, 100); SystemModel<ColumnVector> sm(&prop); { BF *f = own ? new BF(&pa, &post, 20) : new BF(&pa, 20); f->Reset(&pb); eqMC(*f->PostGet(), b, "posterior after reset", false); rng_reset(); Vd z = symV("z", n); queue(z); f->Update(&sm); WS e = b; for (int i = 0; i < n; i++) { e.x[i][0] = z[i]; e.x[i][1] = b.x[i][1] + 100; } eqMC(*f->PostGet(), e, "moved after reset", false); eqMC(pb, b, "prior after an update", false); delete f; } eqMC(pa, a, "first prior survives", false); eqMC(pb, b, "prior survives", false); rng_reset(); REACH("end"); }
// far beyond the fully symbolic sizes: fixed values apart from a few free ones
CASE(big) { int n = sym_int("n", 0, 1) ? 3 : 33, n0 = sym_int("n0", 0, 1) ? 2 : 20; WS a = bigWS(n0, -1), b = bigWS(n, n - 1); MC pa(n0, 2), pb(n, 2); loadMC(pa, a); loadMC(pb, b); a = a.norm(); b = b.norm(); Tags P("prop"); P.fix(-1, -1); TPdf prop(&P, 2, false, 100); SystemModel<ColumnVector> sm(&prop); { BF f(&pa, 90); for (int t = 0; t < 20; t++) f.Reset(t % 2 ? &pb : &pa); f.Reset(&pb); eqMC(*f.PostGet(), b, "posterior after reset", false); rng_reset(); Vd z(n, 0.5); z[0] = sym_real("z"); queue(z); f.Update(&sm); WS e = b; for (int i = 0; i < n; i++) { e.x[i][0] = z[i]; e.x[i][1] = b.x[i][1] + 100; } eqMC(*f.PostGet(), e, "moved after reset", false); eqMC(pb, b, "prior after an update", false); } eqMC(pa, a, "first prior survives", false); rng_reset(); REACH("end"); }
