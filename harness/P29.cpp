// Mixture particle filter: each component is a particle filter of its own, component weights follow the component's likelihood.
#include "common.h"
#include "pf.h"
#include <filter/mixtureBootstrapFilter.h>
#include <filter/mixtureParticleFilter.h>
#include <pdf/mixture.h>
typedef MCPdf<ColumnVector> MC; typedef Mixture<ColumnVector> Mix; typedef MixtureParticleFilter<ColumnVector, ColumnVector> MPF; typedef MixtureBootstrapFilter<ColumnVector, ColumnVector> MBF;
// the specification: components of weighted particles with mixture weights; tags are unique over all components
struct Spec { std::vector<WS> c; Vd w; double total() const { double s = 0; for (double x : w) s = s + x; return s; } };
static Spec symSpec(const std::vector<int> &n) { Spec s; for (size_t i = 0; i < n.size(); i++) { WS a = tagWS(n[i]); for (int k = 0; k < n[i]; k++) a.x[k][1] = 10 + 10 * (int)i + k; s.c.push_back(a); double w = sym_real("cw"); ASSUME_GE(w, 0.0); s.w.push_back(w); } ASSUME_GT(s.total(), 0.0); return s; }
static void build(Mix &m, Spec &s) { std::vector<Probability> W; for (size_t i = 0; i < s.c.size(); i++) { MC q(s.c[i].size(), 2); loadMC(q, s.c[i]); s.c[i] = s.c[i].norm(); Probability one = 1.0; m.AddComponent(q, one); W.push_back(s.w[i]); } m.WeightsSet(W); double t = s.total(); for (double &x : s.w) x = x / t; }
static void eqMix(Mix &m, const Spec &s, const char *w) { std::string W = w; CHECK((size_t)m.NumComponentsGet() == s.c.size(), (W + ": components").c_str()); for (size_t i = 0; i < s.c.size() && i < (size_t)m.NumComponentsGet(); i++) { eqMC(*(MC *)m.ComponentGet(i), s.c[i], w, false); CHECK_EQ((double)m.WeightGet(i), s.w[i], (W + ": component weight").c_str()); } }
static std::vector<int> sizes(int k) { std::vector<int> n; for (int i = 0; i < k; i++) n.push_back(k == 1 ? sym_int("n", 1, 3) : sym_int("n", 1, 2)); return n; }
static void move(Spec &e, int in) { for (WS &c : e.c) for (int i = 0; i < c.size(); i++) { double z = sym_real("z"); rng_queue(z); c.x[i][0] = z; c.x[i][1] = c.x[i][1] + 100 + 1000 * in; } }
static int count(const Spec &e) { int n = 0; for (const WS &c : e.c) n += c.size(); return n; }
// f(component, particle) multiplies the weight
template <class F> static void weigh(Spec &e, F f) { for (size_t i = 0; i < e.c.size(); i++) { WS &c = e.c[i]; for (int k = 0; k < c.size(); k++) c.w[k] = c.w[k] * f(i, k); double s = c.total(); ASSUME_GT(s, 0.0); e.w[i] = e.w[i] * s; for (double &w : c.w) w = w / s; } double t = e.total(); ASSUME_GT(t, 0.0); for (double &w : e.w) w = w / t; }
struct Sim { Spec s, e; Mix prior; Tags P, T, L; bool in, si; TPdf prop, tp, mp; SystemModel<ColumnVector> sp, st; MeasurementModel<ColumnVector, ColumnVector> mm; MPF *f; bool boot; int step;
  Sim(const std::vector<int> &n, bool b, bool i, bool q, int period, double thr) : s(symSpec(n)), prior(2u), P("prop"), T("trans"), L("like"), in(i), si(q), prop(&P, 2, i, 100), tp(&T, 2, i), mp(&L, 1, q), sp(&prop), st(&tp), mm(&mp), f(0), boot(b), step(0) { build(prior, s); e = s; f = boot ? new MBF(&prior, period, thr) : new MPF(&prior, &prop, period, thr); rng_reset(); }
  SystemModel<ColumnVector> *sys() { return boot ? &sp : &st; }
  ~Sim() { delete f; rng_reset(); }
  bool predict(int u) { ColumnVector U = toC(Vd(1, u)); step++; return in ? f->Update(sys(), U) : f->Update(sys()); }
  bool measure(int y, int q) { ColumnVector Y = toC(Vd(1, y)), S = toC(Vd(1, q)); return si ? f->Update(&mm, Y, S) : f->Update(&mm, Y); }
  bool both(int u, int y, int q) { ColumnVector U = toC(Vd(1, u)), Y = toC(Vd(1, y)), S = toC(Vd(1, q)); step++; return in && si ? f->Update(sys(), U, &mm, Y, S) : in ? f->Update(sys(), U, &mm, Y) : si ? f->Update(sys(), &mm, Y, S) : f->Update(sys(), &mm, Y); }
  double like(int i, int k, int y, int q) { return L.at(y, (int)e.c[i].x[k][1], si ? q : 0); }
  void end(const char *w) { eqMix(*f->PostGet(), e, w); eqMix(prior, s, "prior untouched"); CHECK(f->TimeStepGet() == step, "one time step per prediction"); REACH("end"); } };
CASE(initial) { int b = sym_int("boot", 0, 1); Sim a(sizes(sym_int("k", 1, 3)), b, false, false, 10, 0.0); a.end("before any update"); }
CASE(predict) { int k = sym_int("k", 1, 2), b = sym_int("boot", 0, 1), in = sym_int("in", 0, 1), t = sym_int("t", 1, 2); Sim a(sizes(k), b, in, false, 10, 0.0); for (int i = 0; i < t; i++) { rng_reset(); move(a.e, in ? 2 + i : 0); CHECK(a.predict(2 + i), "update succeeds"); CHECK(rng_unused() == 0 && rng_count() == count(a.e), "fresh draws for every particle"); } a.end("moved"); }
CASE(measure) { int k = sym_int("k", 1, 2), b = sym_int("boot", 0, 1), si = sym_int("si", 0, 1); Sim a(sizes(k), b, false, si, 10, 0.0); weigh(a.e, [&](int i, int j) { return a.like(i, j, 4, 6); }); CHECK(a.measure(4, 6), "update succeeds"); CHECK(rng_count() == 0, "no draws"); a.end("weighed"); }
CASE(measure_3) { int si = sym_int("si", 0, 1); std::vector<int> n(3, 1); n[1] = 2; Sim a(n, sym_int("boot", 0, 1), false, si, 10, 0.0); weigh(a.e, [&](int i, int j) { return a.like(i, j, 4, 6); }); a.measure(4, 6); a.end("three components"); }
CASE(measure_twice) { int b = sym_int("boot", 0, 1); std::vector<int> n(2, 1); n[1] = sym_int("n", 1, 2); Sim a(n, b, false, false, 10, 0.0); for (int t = 0; t < 2; t++) { weigh(a.e, [&](int i, int j) { return a.like(i, j, 4 + t, 6); }); a.measure(4 + t, 6); } a.end("two measurements"); }
CASE(bootstrap_both) { int k = sym_int("k", 1, 2), in = sym_int("in", 0, 1), si = sym_int("si", 0, 1); Sim a(sizes(k), true, in, si, 10, 0.0); move(a.e, in ? 2 : 0); weigh(a.e, [&](int i, int j) { return a.like(i, j, 4, 6); }); CHECK(a.both(2, 4, 6), "update succeeds"); a.end("moved and weighed"); }
static void general(Sim &a, int u, int y, int q) { Spec o = a.e; move(a.e, a.in ? u : 0); weigh(a.e, [&](int i, int j) { int x = (int)a.e.c[i].x[j][1], p = (int)o.c[i].x[j][1]; double pr = a.P.at(x, p, a.in ? u : 0), tr = a.T.at(x, p, a.in ? u : 0), li = a.like(i, j, y, q); return pr != 0 ? li * tr / pr : 0.0; }); CHECK(a.both(u, y, q), "update succeeds"); }
CASE(general_both) { int k = sym_int("k", 1, 2), in = sym_int("in", 0, 1), si = sym_int("si", 0, 1); Sim a(std::vector<int>(k, k == 1 ? 2 : 1), false, in, si, 10, 0.0); general(a, 2, 4, 6); a.end("importance sampling"); }
CASE(general_two) { std::vector<int> n(2, 1); n[1] = 2; Sim a(n, false, sym_int("in", 0, 1), sym_int("si", 0, 1), 10, 0.0); general(a, 2, 4, 6); a.end("importance sampling"); }
CASE(general_twice) { std::vector<int> n(2, 1); Sim a(n, false, true, false, 10, 0.0); for (int t = 0; t < 2; t++) general(a, 2 + t, 4 + t, 6); a.end("importance sampling"); }
CASE(dead_component) { // a component that does not explain a measurement loses its weight for good, the others share it
  int d = sym_int("dead", 0, 1), b = sym_int("boot", 0, 1), si = sym_int("si", 0, 1); std::vector<int> n(3, 1); n[1] = 2; Sim a(n, b, false, si, 10, 0.0); for (int k = 0; k < n[d]; k++) a.L.t[std::vector<int>{4, 10 + 10 * d + k, si ? 6 : 0}] = 0.0; for (int t = 0; t < 2; t++) { Vd w = a.e.w; double tot = 0; for (int i = 0; i < 3; i++) { if (i == d) { w[i] = 0.0; continue; } WS &c = a.e.c[i]; for (int k = 0; k < c.size(); k++) c.w[k] = c.w[k] * a.like(i, k, 4 + t, 6); double s = c.total(); ASSUME_GT(s, 0.0); for (double &x : c.w) x = x / s; w[i] = w[i] * s; tot = tot + w[i]; } ASSUME_GT(tot, 0.0); a.measure(4 + t, 6); for (int i = 0; i < 3; i++) { a.e.w[i] = w[i] / tot; CHECK_EQ((double)a.f->PostGet()->WeightGet(i), a.e.w[i], "component weight"); if (i != d) eqMC(*(MC *)a.f->PostGet()->ComponentGet(i), a.e.c[i], "surviving component", false); } } REACH("end"); }
CASE(general_merged) { // particles that all move to one point
  std::vector<int> n(2, 1); n[1] = 2; Sim a(n, false, sym_int("in", 0, 1), sym_int("si", 0, 1), 10, 0.0); a.prop.merge = 500; Spec o = a.e; double z = sym_real("z"); int u = a.in ? 2 : 0; for (WS &c : a.e.c) for (int i = 0; i < c.size(); i++) { rng_queue(z); c.x[i][0] = z; c.x[i][1] = 600 + 1000 * u; } weigh(a.e, [&](int i, int j) { int x = (int)a.e.c[i].x[j][1], p = (int)o.c[i].x[j][1]; double pr = a.P.at(x, p, u), tr = a.T.at(x, p, u), li = a.like(i, j, 4, 6); return pr != 0 ? li * tr / pr : 0.0; }); CHECK(a.both(2, 4, 6), "update succeeds"); a.end("importance sampling"); }
// resampling happens inside each component and leaves the mixture weights
static int find(const WS &o, double tag) { for (int k = 0; k < o.size(); k++) if (o.x[k][1] == tag) return k; return -1; }
static void survivors(Sim &a, const Spec &o, const std::vector<Vd> &u, double shift) { for (size_t i = 0; i < o.c.size(); i++) { if (u[i].empty()) continue; int n = o.c[i].size(); MC *m = (MC *)a.f->PostGet()->ComponentGet(i); CHECK((int)m->NumSamplesGet() == n, "number of particles"); if ((int)m->NumSamplesGet() != n) return; for (int k = 0; k < n; k++) { int s = find(o.c[i], m->SampleGet(k).ValueGet()(2) - shift); checkPick(o.c[i].w, u[i][k], s, "surviving particle"); if (s < 0) return; a.e.c[i].x[k] = o.c[i].x[s]; a.e.c[i].w[k] = 1.0 / n; } } }
CASE(static_period) { int k = sym_int("k", 1, 2), b = sym_int("boot", 0, 1), p = sym_int("p", 1, 2); Sim a(std::vector<int>(k, k == 1 ? 2 : 1), b, false, false, p, 0.0); for (int t = 0; t < 2 * p; t++) { rng_reset(); bool rs = t > 0 && t % p == 0; Spec o = a.e; std::vector<Vd> u(k); if (rs) for (int i = 0; i < k; i++) { Vd r = symU("u", o.c[i].size()); queue(r); u[i] = ordered(r); } Vd z = symV("z", count(o)); queue(z); CHECK(a.predict(0), "update succeeds"); CHECK(rng_unused() == 0 && rng_count() == count(o) * (rs ? 2 : 1), rs ? "resampled at its time" : "not resampled"); if (rs) survivors(a, o, u, 100); int q = 0; for (WS &c : a.e.c) for (int i = 0; i < c.size(); i++) { c.x[i][0] = z[q++]; c.x[i][1] = c.x[i][1] + 100; } } a.end("periodic resampling"); }
CASE(static_two) { int b = sym_int("boot", 0, 1); std::vector<int> n(2, 2); n[0] = sym_int("n", 1, 2); Sim a(n, b, false, false, 1, 0.0); for (int t = 0; t < 2; t++) { rng_reset(); bool rs = t > 0; Spec o = a.e; std::vector<Vd> u(2); if (rs) for (int i = 0; i < 2; i++) { Vd r = symU("u", o.c[i].size()); queue(r); u[i] = ordered(r); } Vd z = symV("z", count(o)); queue(z); a.predict(0); CHECK(rng_unused() == 0 && rng_count() == count(o) * (rs ? 2 : 1), rs ? "resampled at its time" : "not resampled"); if (rs) survivors(a, o, u, 100); int q = 0; for (WS &c : a.e.c) for (int i = 0; i < c.size(); i++) { c.x[i][0] = z[q++]; c.x[i][1] = c.x[i][1] + 100; } } a.end("periodic resampling"); }
CASE(dynamic) { int b = sym_int("boot", 0, 1); std::vector<int> n(2, 1); n[1] = 2; double thr = sym_real("thr"); ASSUME_GT(thr, 0.0); Sim a(n, b, false, false, 0, thr); weigh(a.e, [&](int i, int j) { return a.like(i, j, 4, 6); }); Spec o = a.e; std::vector<Vd> u(2); int c = 0; for (int i = 0; i < 2; i++) { double q = 0; for (double w : o.c[i].w) q = q + w * w; if (1.0 / q < thr) { Vd r = symU("u", n[i]); queue(r); u[i] = ordered(r); c += n[i]; } } CHECK(a.measure(4, 6), "update succeeds"); CHECK(rng_unused() == 0 && rng_count() == c, "a component is resampled exactly when its effective number of particles is below the threshold"); survivors(a, o, u, 0); a.end("dynamic resampling"); }
CASE(dynamic_predict) { int b = sym_int("boot", 0, 1); std::vector<int> n(2, 2); Sim a(n, b, false, false, 0, 1000.0); for (int t = 0; t < 2; t++) { rng_reset(); move(a.e, 0); a.predict(0); CHECK(rng_unused() == 0, "not resampled"); } a.end("a prediction alone never resamples dynamically"); }
// more and larger components: concrete particles, one weight free
CASE(sizes) { int k = sym_int("k", 4, 6), b = sym_int("boot", 0, 1), fc = sym_int("fc", 0, 1) ? k - 1 : 1; ASSUME(k != 5); Mix prior(2u); Spec s; for (int i = 0; i < k; i++) { WS a = bigWS(2 + i % 4, i == fc ? 1 : -1); for (int j = 0; j < a.size(); j++) a.x[j][1] = 10 + 10 * i + j; s.c.push_back(a); s.w.push_back(1.0 + i); } s.w[k - 2] = sym_real("cw"); ASSUME_GT(s.w[k - 2], 0.0); build(prior, s); Spec e = s; Tags P("prop"), T("trans"), L("like"); P.fix(-1, -1); T.fix(-1, -1); L.fix(4, 0); TPdf prop(&P, 2, false, 100), mp(&L, 1, false); SystemModel<ColumnVector> sm(&prop); MeasurementModel<ColumnVector, ColumnVector> mm(&mp); { MPF *f = b ? (MPF *)new MBF(&prior, 50, 0.0) : new MPF(&prior, &prop, 50, 0.0); eqMix(*f->PostGet(), s, "before any update"); rng_reset(); move(e, 0); CHECK(f->Update(&sm), "update succeeds"); CHECK(rng_unused() == 0 && rng_count() == count(e), "fresh draws for every particle"); L.fx = (int)e.c[fc].x[0][1]; weigh(e, [&](int i, int j) { return L.at(4, (int)e.c[i].x[j][1], 0); }); f->Update(&mm, toC(Vd(1, 4.0))); eqMix(*f->PostGet(), e, "moved and weighed"); eqMix(prior, s, "prior untouched"); delete f; } rng_reset(); REACH("end"); }
// far beyond the fully symbolic sizes: fixed values apart from a few free ones
CASE(big) { int k = sym_int("k", 0, 1) ? 9 : 17, b = sym_int("boot", 0, 1), fc = k - 1; Mix prior(2u); Spec s; for (int i = 0; i < k; i++) { WS a = bigWS(i == 3 ? 20 : 1 + i % 4, i == fc ? 0 : -1); for (int j = 0; j < a.size(); j++) a.x[j][1] = 10 + 30 * i + j; s.c.push_back(a); s.w.push_back(1.0 + i); } s.w[k - 2] = sym_real("cw"); ASSUME_GT(s.w[k - 2], 0.0); build(prior, s); Spec e = s; Tags P("prop"), L("like"); P.fix(-1, -1); L.fix(4, 0); TPdf prop(&P, 2, false, 1000), mp(&L, 1, false); SystemModel<ColumnVector> sm(&prop); MeasurementModel<ColumnVector, ColumnVector> mm(&mp); { MPF *f = b ? (MPF *)new MBF(&prior, 50, 0.0) : new MPF(&prior, &prop, 50, 0.0); L.fx = (int)e.c[fc].x[0][1]; weigh(e, [&](int i, int j) { return L.at(4, (int)e.c[i].x[j][1], 0); }); f->Update(&mm, toC(Vd(1, 4.0))); eqMix(*f->PostGet(), e, "weighed"); eqMix(prior, s, "prior untouched"); delete f; } rng_reset(); REACH("end"); }
