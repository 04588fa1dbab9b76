// Resampling of particle filters: when it happens, which particles survive, and the uniform weights afterwards.
#include "common.h"
#include "pf.h"
#include <pdf/discreteconditionalpdf.h>
typedef BootstrapFilter<ColumnVector, ColumnVector> BF; typedef ParticleFilter<ColumnVector, ColumnVector> PF; typedef MCPdf<ColumnVector> MC;
struct Sim { int n; WS e; MC prior, post; Tags P, L; TPdf prop, mp; SystemModel<ColumnVector> sm; MeasurementModel<ColumnVector, ColumnVector> mm; PF *f; int step;
  Sim(int k, int kind, int period, double thr, bool uniform = false) : n(k), e(tagWS(k)), prior(k, 2), post(k, 2), P("prop"), L("like"), prop(&P, 2, false, 100), mp(&L, 1, false), sm(&prop), mm(&mp), f(0), step(0) { if (uniform) for (double &w : e.w) w = 1.0; loadMC(prior, e); e = e.norm(); if (kind == 0) f = new BF(&prior, period, thr); else if (kind == 1) f = new BF(&prior, &post, period, thr); else if (kind == 2) f = new PF(&prior, &prop, period, thr); else f = new PF(&prior, &post, &prop, period, thr); rng_reset(); }
  ~Sim() { delete f; rng_reset(); }
  Vd uniforms() { Vd u = symU("u", n); queue(u); return ordered(u); }
  // the resampled set, read off the tags of the real result; every survivor checked against its draw
  void survivors(const Vd &u, const WS &old, const std::vector<int> &anc) { for (int i = 0; i < n; i++) checkPick(old.w, u[i], anc[i], "surviving particle"); e = old; for (int i = 0; i < n; i++) { if (anc[i] >= 0 && anc[i] < n) e.x[i] = old.x[anc[i]]; e.w[i] = 1.0 / n; } }
  int find(const WS &o, double tag) { for (int k = 0; k < n; k++) if (o.x[k][1] == tag) return k; return -1; }
  void sys(bool rs) { WS old = e; Vd u; if (rs) u = uniforms(); Vd z = symV("z", n); queue(z); CHECK(f->Update(&sm), "update succeeds"); CHECK(rng_unused() == 0 && rng_count() == n * (rs ? 2 : 1), rs ? "resampled at its time" : "not resampled"); rng_reset(); std::vector<WeightedSample<ColumnVector> > A = f->PostGet()->ListOfSamplesGet(); CHECK((int)A.size() == n, "number of particles"); if (rs) { std::vector<int> anc; for (int i = 0; i < n; i++) anc.push_back(find(old, A[i].ValueGet()(2) - 100)); survivors(u, old, anc); } for (int i = 0; i < n; i++) { e.x[i][0] = z[i]; e.x[i][1] = e.x[i][1] + 100; } step++; retag(); }
  void retag() {}
  Vd like(int y) { Vd l; for (int i = 0; i < n; i++) l.push_back(L.at(y, (int)e.x[i][1], 0)); return l; }
  void weigh(const Vd &l) { for (int i = 0; i < n; i++) e.w[i] = e.w[i] * l[i]; ASSUME_GT(e.total(), 0.0); e = e.norm(); }
  void end(const char *w) { eqMC(*f->PostGet(), e, w, false); CHECK(f->TimeStepGet() == step, "time step"); REACH("end"); } };
CASE(static_period) { int n = sym_int("n", 1, 2), p = sym_int("period", 1, 2), kind = sym_int("kind", 0, 3); Sim s(n, kind, p, 0.0); for (int t = 0; t < p + 1; t++) s.sys(t > 0 && t % p == 0); s.end("after a static period"); }
CASE(static_long) { int p = sym_int("period", 1, 4); Sim s(1, 0, p, 0.0); for (int t = 0; t < 9; t++) s.sys(t > 0 && t % p == 0); s.end("periodic"); }
CASE(static_three) { Sim s(3, 0, 1, 0.0); s.sys(false); s.sys(true); s.end("three particles"); }
CASE(static_not_by_measurement) { int n = sym_int("n", 1, 2), p = sym_int("period", 1, 2); Sim s(n, 0, p, 0.0); for (int t = 0; t <= p; t++) { s.sys(t > 0 && t % p == 0); if (t < p) for (int k = 0; k < 2; k++) { s.weigh(s.like(k)); CHECK(s.f->Update(&s.mm, toC(Vd(1, k))), "update succeeds"); CHECK(rng_count() == 0, "a measurement does not resample"); } } s.end("measurements do not count"); }
CASE(dynamic) { int n = sym_int("n", 1, 3), kind = sym_int("kind", 0, 3); double t = sym_real("thr"); ASSUME_GT(t, 0.0); Sim s(n, kind, 0, t); s.weigh(s.like(5)); double q = 0; for (double w : s.e.w) q = q + w * w; bool rs = 1.0 / q < t; Vd u; WS old = s.e; if (rs) u = s.uniforms(); CHECK(s.f->Update(&s.mm, toC(Vd(1, 5.0))), "update succeeds"); CHECK(rng_unused() == 0 && rng_count() == (rs ? n : 0), "resampled exactly when the effective number of particles is below the threshold"); if (rs) { std::vector<WeightedSample<ColumnVector> > A = s.f->PostGet()->ListOfSamplesGet(); std::vector<int> anc; for (int i = 0; i < n; i++) anc.push_back(s.find(old, A[i].ValueGet()(2))); s.survivors(u, old, anc); } s.end("after a measurement"); }
CASE(dynamic_sys) { int n = sym_int("n", 1, 2), kind = sym_int("kind", 0, 2); Sim s(n, kind, 0, 1000.0); for (int t = 0; t < 3; t++) s.sys(false); s.end("a prediction alone never resamples dynamically"); }
CASE(dynamic_repeat) { // resampled sets are weighed and resampled again
  int n = 2; Sim s(n, 0, 0, 1000.0); for (int k = 0; k < 2; k++) { s.weigh(s.like(k)); Vd u = s.uniforms(); WS old = s.e; s.f->Update(&s.mm, toC(Vd(1, k))); CHECK(rng_unused() == 0 && rng_count() == n, "resampled"); rng_reset(); std::vector<WeightedSample<ColumnVector> > A = s.f->PostGet()->ListOfSamplesGet(); std::vector<int> anc; for (int i = 0; i < n; i++) anc.push_back(s.find(old, A[i].ValueGet()(2))); bool same = old.x[0][1] == old.x[1][1]; if (!same) s.survivors(u, old, anc); else { for (int i = 0; i < n; i++) CHECK(anc[i] >= 0, "surviving particle"); s.e = old; for (double &w : s.e.w) w = 1.0 / n; } } s.end("repeated resampling"); }
CASE(degenerate) { // all weight on one particle: every survivor is that one
  int n = sym_int("n", 2, 3), k = sym_int("k", 0, 2); ASSUME(k < n); Sim s(n, 0, 0, 1000.0); Vd l = s.like(5); for (int i = 0; i < n; i++) if (i != k) ASSUME_EQ(l[i], 0.0); s.weigh(l); s.uniforms(); s.f->Update(&s.mm, toC(Vd(1, 5.0))); std::vector<WeightedSample<ColumnVector> > A = s.f->PostGet()->ListOfSamplesGet(); WS old = s.e; for (int i = 0; i < n; i++) { s.e.x[i] = old.x[k]; s.e.w[i] = 1.0 / n; } s.end("only the particle with weight survives"); }
CASE(discrete_state) { int n = sym_int("n", 1, 2), k = 2; int D[1] = {k}; DiscreteConditionalPdf T(k, 1, D); Md t; for (int c = 0; c < k; c++) { double a = sym_real("t"); ASSUME_GE(a, 0.0); ASSUME_LE(a, 1.0); Vd v(2); v[0] = a; v[1] = 1.0 - a; t.push_back(v); for (int i = 0; i < k; i++) T.ProbabilitySet(v[i], i, std::vector<int>(1, c)); } SystemModel<int> sm(&T); MeasurementModel<int, int> mm(&T); std::vector<WeightedSample<int> > W; Vd w; std::vector<int> x; double tot = 0; for (int i = 0; i < n; i++) { WeightedSample<int> a; x.push_back(sym_int("x", 0, k - 1)); a.ValueSet(x[i]); w.push_back(sym_real("w")); ASSUME_GE(w[i], 0.0); tot = tot + w[i]; a.WeightSet(w[i]); W.push_back(a); } ASSUME_GT(tot, 0.0); for (double &v : w) v = v / tot; MCPdf<int> prior(n, 1); prior.ListOfSamplesSet(W); BootstrapFilter<int, int> f(&prior, 10, 0.0); Vd u = symU("u", n); rng_reset(); queue(u); f.Update(&sm); CHECK(rng_unused() == 0 && rng_count() == n, "one draw per particle"); rng_reset(); W = f.PostGet()->ListOfSamplesGet(); for (int i = 0; i < n; i++) { checkPick(t[x[i]], u[i], W[i].ValueGet(), "moved discrete particle"); CHECK_EQ(W[i].WeightGet(), w[i], "weight kept"); } int z = sym_int("z", 0, k - 1); double s = 0; for (int i = 0; i < n; i++) { int a = W[i].ValueGet(); ASSUME(a >= 0 && a < k); w[i] = w[i] * t[a][z]; s = s + w[i]; } ASSUME_GT(s, 0.0); f.Update(&mm, z); W = f.PostGet()->ListOfSamplesGet(); for (int i = 0; i < n; i++) CHECK_EQ(W[i].WeightGet(), w[i] / s, "weight of a discrete particle"); REACH("end"); }
// larger sets: concrete weights and draws, one draw free
CASE(sizes) { int n = sym_int("n", 5, 8), k = sym_int("k", 0, 1) ? n - 1 : n / 2; ASSUME(n != 7 && n != 6); sym_numeric(1); WS s = bigWS(n, -1); MC prior(n, 2); for (int i = 0; i < n; i++) s.w[i] = i == 2 ? n == 5 ? 12.0 : 9.0 : 1.0; loadMC(prior, s); s = s.norm(); Tags L("like"), P("prop"); L.fix(-1, -1); TPdf mp(&L, 1, false); for (int i = 0; i < n; i++) L.t[std::vector<int>{5, 10 + i, 0}] = 1.0; MeasurementModel<ColumnVector, ColumnVector> mm(&mp); double thr = sym_real("thr"); ASSUME_GT(thr, 0.0); double q = 0; for (double w : s.w) q = q + w * w; BF f(&prior, 0, thr); rng_reset(); double lim = 1.0 / q; ASSUME(!(thr > lim - 1e-6 && thr < lim + 1e-6)); bool rs = lim < thr; Vd d(n); for (int i = 0; i < n; i++) d[i] = (i * 5 % n + 0.5) / n; if (k == n - 1) { for (int i = 0; i < n; i++) queue(Vd(1, d[i])); } else { double u = sym_real("u"); ASSUME_GE(u, 0.0); ASSUME_LT(u, 1.0); d[0] = u; queue(d); } CHECK(f.Update(&mm, toC(Vd(1, 5.0))), "update succeeds"); CHECK(rng_count() == (rs ? n : 0), "resampled exactly when the effective number of particles is below the threshold"); if (rs) { Vd u = ordered(d); CHECK((int)f.PostGet()->NumSamplesGet() == n, "number of particles"); int last = -1; std::vector<WeightedSample<ColumnVector> > A = f.PostGet()->ListOfSamplesGet(); for (int i = 0; i < n; i++) { int a = (int)A[i].ValueGet()(2) - 10; CHECK(a >= 0 && a < n, "an existing particle"); if (a < 0 || a >= n) break; double lo = 0; for (int j = 0; j < a; j++) lo = lo + s.w[j]; CHECK_LE(lo - 1e-9, u[i], "surviving particle"); CHECK_LE(u[i], lo + s.w[a] + 1e-9, "surviving particle"); eqC(A[i].ValueGet(), s.x[a], "value of a survivor"); CHECK_LE(A[i].WeightGet() * n - 1.0, 1e-9, "uniform weight"); CHECK_GE(A[i].WeightGet() * n - 1.0, -1e-9, "uniform weight"); last = a; } (void)last; } else eqMC(*f.PostGet(), s, "kept", false); rng_reset(); REACH("end"); }
CASE(long_period) { int p = sym_int("period", 5, 12); ASSUME(p == 5 || p == 8 || p == 12); Sim s(1, 0, p, 0.0); for (int t = 0; t < 2 * p + 2; t++) s.sys(t > 0 && t % p == 0); s.end("long period"); }
// far beyond the fully symbolic sizes: fixed values apart from a few free ones
CASE(big_period) { int p = sym_int("period", 0, 1) ? 20 : 35; Sim s(1, 0, p, 0.0); for (int t = 0; t < 2 * p + 2; t++) s.sys(t > 0 && t % p == 0); s.end("long period"); }
