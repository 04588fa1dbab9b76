// Sampling a mixture: the component is the inverse of the cumulative weights at the draw, the value a sample of that component.
#include "common.h"
#include <pdf/mixture.h>
#include <pdf/gaussian.h>
#include <pdf/discretepdf.h>
#include "pick.h"
using namespace BFL;
struct MX { double base; Vd w; int n; };
static MX build(Mixture<ColumnVector> *&m, int n, bool sym = true) { MX s; s.n = n; s.base = sym_real("base"); std::vector<Pdf<ColumnVector> *> v; for (int i = 0; i < n; i++) v.push_back(new Gaussian(toC(Vd(1, s.base + i)), toS(ident(1)))); m = new Mixture<ColumnVector>(v); for (auto p : v) delete p; std::vector<Probability> p; double t = 0; for (int i = 0; i < n; i++) { double w = sym ? sym_real("w") : 1.0 + i % 2; if (sym) ASSUME_GE(w, 0.0); t = t + w; s.w.push_back(w); p.push_back(Probability(w)); } if (sym) ASSUME_GT(t, 0.0); for (double &x : s.w) x = x / t; m->WeightsSet(p); return s; }
static int which(const ColumnVector &v, const MX &s, double z) { CHECK(v.rows() == 1, "sample dimension"); if (v.rows() != 1) return -1; double o = v(1) - z - s.base; for (int i = 0; i < s.n; i++) if (o == (double)i) return i; CHECK(false, "a sample of one of the components"); return -1; }
static void one(Mixture<ColumnVector> &m, const MX &s) { Sample<ColumnVector> o; rng_reset(); CHECK(m.SampleFrom(o), "sampling succeeds"); CHECK(rng_count() == 2, "one draw for the component and one for the value"); if (rng_count() == 2) checkPick(s.w, rng_draw(0), which(o.ValueGet(), s, rng_draw(1)), "sampled component"); }
CASE(single) { int n = sym_int("n", 1, 4); Mixture<ColumnVector> *m; MX s = build(m, n); one(*m, s); delete m; REACH("end"); }
CASE(draws) { int n = sym_int("n", 1, 3), k = sym_int("k", 1, 2); Mixture<ColumnVector> *m; MX s = build(m, n); std::vector<Sample<ColumnVector> > L(sym_int("old", 0, 2)); rng_reset(); CHECK(m->SampleFrom(L, k, SampleMthd::DEFAULT, NULL), "sampling succeeds"); CHECK((int)L.size() == k && rng_count() == 2 * k, "requested number of samples"); if ((int)L.size() == k && rng_count() == 2 * k) for (int i = 0; i < k; i++) checkPick(s.w, rng_draw(2 * i), which(L[i].ValueGet(), s, rng_draw(2 * i + 1)), "sampled component in a list"); delete m; REACH("end"); }
static void ripley(int n, int k, bool sym) { Mixture<ColumnVector> *m; MX s = build(m, n, sym); std::vector<Sample<ColumnVector> > L(sym_int("old", 0, 2)); rng_reset(); CHECK(m->SampleFrom(L, k, SampleMthd::RIPLEY, NULL), "sampling succeeds"); CHECK((int)L.size() == k && rng_count() == 2 * k, "requested number of samples"); if ((int)L.size() == k && rng_count() == 2 * k) { Vd u(k); for (int i = 0; i < k; i++) u[i] = rng_draw(i); u = ordered(u); for (int i = 0; i < k; i++) checkPick(s.w, u[i], which(L[i].ValueGet(), s, rng_draw(k + i)), "ordered sampling"); } delete m; REACH("end"); }
CASE(ripley_1) { ripley(sym_int("n", 1, 3), 1, true); }
CASE(ripley_2) { ripley(sym_int("n", 1, 3), 2, true); }
CASE(ripley_3) { ripley(sym_int("n", 1, 3), 3, false); }
static void route(Mixture<ColumnVector> &m, const MX &s) { // one of the three ways to draw
  int r = sym_int("route", 0, 2); if (!r) { one(m, s); return; } int k = r == 1 ? 2 : 1; std::vector<Sample<ColumnVector> > L; rng_reset(); CHECK(m.SampleFrom(L, k, r == 1 ? SampleMthd::DEFAULT : SampleMthd::RIPLEY, NULL), "sampling succeeds"); CHECK((int)L.size() == k && rng_count() == 2 * k, "requested number of samples"); if ((int)L.size() == k && rng_count() == 2 * k) for (int i = 0; i < k; i++) checkPick(s.w, rng_draw(2 * i), which(L[i].ValueGet(), s, rng_draw(2 * i + 1)), "sampled component in a list"); }
CASE(follows) { Mixture<ColumnVector> *m; MX s = build(m, 2); for (int t = 0; t < 2; t++) { int op = sym_int("op", 0, 4); if (op == 0) { int i = sym_int("i", 0, s.n - 1); if (s.n < 2) sym_end_path(); double a = sym_range("a", 0, 1), o = s.w[i]; m->WeightSet(i, Probability(a)); if (o != 1.0) for (double &x : s.w) x = x * ((1 - a) / (1 - o)); else for (double &x : s.w) x = (1 - a) / (s.n - 1); s.w[i] = a; } else if (op == 1) { Gaussian g(toC(Vd(1, s.base + s.n)), toS(ident(1))); double a = sym_range("a", 0, 1); m->AddComponent(g, Probability(a)); for (double &x : s.w) x = x * (1 - a); s.w.push_back(a); s.n++; } else if (op == 2) { if (s.n < 2) sym_end_path(); s.n--; s.w.pop_back(); double tt = 0; for (double x : s.w) tt = tt + x; ASSUME_GT(tt, 0.0); for (double &x : s.w) x = x / tt; m->DeleteComponent(s.n); } else if (op == 3) { Sample<ColumnVector> o; m->SampleFrom(o); std::vector<Sample<ColumnVector> > l; rng_reset(); for (int i = 0; i < 4; i++) rng_queue(0.25); m->SampleFrom(l, 2, sym_int("ordered", 0, 1) ? SampleMthd::RIPLEY : SampleMthd::DEFAULT, NULL); rng_reset(); } else { Mixture<ColumnVector> *c = m->Clone(); m->DeleteComponent(0); delete m; m = c; } } route(*m, s); delete m; REACH("end"); }
CASE(discrete) { int n = sym_int("n", 1, 2); std::vector<DiscretePdf *> v; for (int i = 0; i < n; i++) { v.push_back(new DiscretePdf(2)); v[i]->ProbabilitySet(0, i ? 0.25 : 0.75); } Mixture<int> m(v); for (auto p : v) delete p; double a = sym_range("a", 0, 1); Vd w(1, 1.0); if (n == 2) { m.WeightSet(1, Probability(a)); w[0] = 1 - a; w.push_back(a); } Sample<int> o; rng_reset(); CHECK(m.SampleFrom(o), "sampling succeeds"); CHECK(rng_count() == 2, "two draws"); if (rng_count() == 2) { int st = o.ValueGet(); CHECK(st == 0 || st == 1, "a state"); double u = rng_draw(0), v2 = rng_draw(1); double q = u < w[0] ? 0.75 : 0.25; if (u == w[0]) sym_end_path(); if (st == 0) CHECK_LE(v2, q, "state of the chosen component"); else CHECK_LE(q, v2, "state of the chosen component"); } REACH("end"); }
CASE(unsupported) { Mixture<ColumnVector> *m; build(m, 2, false); Sample<ColumnVector> o; std::vector<Sample<ColumnVector> > L; CHECK(!m->SampleFrom(o, SampleMthd::CHOLESKY, NULL) && !m->SampleFrom(L, 2, SampleMthd::CHOLESKY, NULL), "unsupported method reports failure"); delete m; REACH("end"); }
CASE_T(single_6) { int n = sym_int("n", 5, 7); Mixture<ColumnVector> *m; MX s = build(m, n); one(*m, s); delete m; REACH("end"); }
CASE(sizes) { int n = sym_int("n", 5, 10), z = sym_int("zero", 0, 1); MX s; s.n = n; s.base = sym_real("base"); std::vector<Pdf<ColumnVector> *> v; for (int i = 0; i < n; i++) v.push_back(new Gaussian(toC(Vd(1, s.base + i)), toS(ident(1)))); Mixture<ColumnVector> m(v); for (auto p : v) delete p; std::vector<Probability> p; double t = 0; for (int i = 0; i < n; i++) { double w = z && i % 3 == 0 ? 0 : 1 + (i * 5) % 7; t += w; s.w.push_back(w); p.push_back(Probability(w)); } for (double &x : s.w) x /= t; m.WeightsSet(p); one(m, s); m.WeightSet(2, Probability(0.5)); double o = s.w[2]; for (double &x : s.w) x = x * 0.5 / (1 - o); s.w[2] = 0.5; one(m, s); REACH("end"); }
CASE(long_lists) { int n = sym_int("n", 2, 3), k = sym_int("k", 4, 9), at = sym_int("at", 0, 8); ASSUME(at < k); Mixture<ColumnVector> *m; MX s = build(m, n, false); Vd u(k), z(k); rng_reset(); double x = sym_real("u"); ASSUME_GE(x, 0.0); ASSUME_LT(x, 1.0); for (int i = 0; i < k; i++) { u[i] = i == at ? x : ((i * 7) % 16) / 16.0 + 0.01; z[i] = 0.25 * i; rng_queue(u[i]); rng_queue(z[i]); } std::vector<Sample<ColumnVector> > L(sym_int("old", 0, 1) * 12); CHECK(m->SampleFrom(L, k, SampleMthd::DEFAULT, NULL), "sampling succeeds"); CHECK((int)L.size() == k && rng_count() == 2 * k, "requested number of samples"); if ((int)L.size() == k) for (int i = 0; i < k; i++) checkPick(s.w, u[i], which(L[i].ValueGet(), s, z[i]), "sampled component in a list"); rng_reset(); delete m; REACH("end"); }
CASE(none) { Mixture<ColumnVector> *m; MX s = build(m, sym_int("n", 1, 3)); std::vector<Sample<ColumnVector> > L(sym_int("old", 0, 2)); rng_reset(); CHECK(m->SampleFrom(L, 0, sym_int("ordered", 0, 1) ? SampleMthd::RIPLEY : SampleMthd::DEFAULT, NULL), "sampling succeeds"); CHECK(L.empty() && rng_count() == 0, "no samples requested"); one(*m, s); delete m; REACH("end"); }
// far beyond the fully symbolic sizes: fixed values apart from a few free ones
CASE(big) { int n = sym_int("n", 0, 1) ? 20 : 40; MX s; s.n = n; s.base = sym_real("base"); std::vector<Pdf<ColumnVector> *> v; for (int i = 0; i < n; i++) v.push_back(new Gaussian(toC(Vd(1, s.base + i)), toS(ident(1)))); Mixture<ColumnVector> m(v); for (auto p : v) delete p; std::vector<Probability> p; double t = 0; for (int i = 0; i < n; i++) { double w = i % 3 == 0 ? 0 : 1 + (i * 5) % 7; t += w; s.w.push_back(w); p.push_back(Probability(w)); } for (double &x : s.w) x /= t; m.WeightsSet(p); one(m, s); REACH("end"); }
CASE(big_lists) { int n = 3, k = sym_int("k", 0, 1) ? 33 : 64, at = sym_int("at", 0, 1) ? k - 1 : k / 2; Mixture<ColumnVector> *m; MX s = build(m, n, false); Vd u(k), z(k); rng_reset(); double x = sym_real("u"); ASSUME_GE(x, 0.0); ASSUME_LT(x, 1.0); for (int i = 0; i < k; i++) { u[i] = i == at ? x : ((i * 7) % 64) / 64.0 + 0.001; z[i] = 0.25 * i; rng_queue(u[i]); rng_queue(z[i]); } std::vector<Sample<ColumnVector> > L; CHECK(m->SampleFrom(L, k, SampleMthd::DEFAULT, NULL), "sampling succeeds"); CHECK((int)L.size() == k && rng_count() == 2 * k, "requested number of samples"); if ((int)L.size() == k) for (int i = 0; i < k; i++) checkPick(s.w, u[i], which(L[i].ValueGet(), s, z[i]), "sampled component in a list"); rng_reset(); delete m; REACH("end"); }
// assigned mixtures sample like their source, which may change afterwards
CASE(assigned) { int n = sym_int("n", 1, 3), k = sym_int("k", 1, 3); Mixture<ColumnVector> *m, *o; MX s = build(m, n), t = build(o, k, false); if (sym_int("warm", 0, 1)) { Sample<ColumnVector> x; rng_reset(); rng_queue(0.5); rng_queue(0.5); o->SampleFrom(x); } *o = *m; if (sym_int("dead", 0, 1)) { delete m; m = 0; } route(*o, s); delete o; delete m; REACH("end"); }
CASE(copied) { int n = sym_int("n", 1, 3); Mixture<ColumnVector> *m; MX s = build(m, n); Mixture<ColumnVector> c(*m); std::vector<Probability> w; for (int i = 0; i < n; i++) w.push_back(Probability(1.0 + i)); m->WeightsSet(w); delete m; route(c, s); REACH("end"); }
