// Mixtures: weights stay a distribution, the density and mean are the weighted sums, components are private copies.
#include "common.h"
#include <pdf/mixture.h>
#include <pdf/gaussian.h>
#include <pdf/discretepdf.h>
#include "gauss.h"
using namespace BFL;
struct MX { std::vector<Vd> mu; Vd w; int size() const { return w.size(); } void norm() { double s = 0; for (double x : w) s = s + x; for (double &x : w) x = x / s; } double total() const { double s = 0; for (double x : w) s = s + x; return s; } };
static void eqMix(Mixture<ColumnVector> &m, const MX &s, const char *nme) { std::string W = nme; CHECK((int)m.NumComponentsGet() == s.size(), (W + ": number of components").c_str()); if ((int)m.NumComponentsGet() != s.size()) return; std::vector<Probability> p = m.WeightsGet(); CHECK((int)p.size() == s.size(), (W + ": number of weights").c_str()); int d = s.mu[0].size(); Vd mean(d, 0.0); for (int i = 0; i < s.size(); i++) { CHECK_EQ((double)p[i], s.w[i], (W + ": weight list").c_str()); CHECK_EQ((double)m.WeightGet(i), s.w[i], (W + ": weight").c_str()); eqC(m.ComponentGet(i)->ExpectedValueGet(), s.mu[i], (W + ": component").c_str()); for (int j = 0; j < d; j++) mean[j] = mean[j] + s.w[i] * s.mu[i][j]; } eqC(m.ExpectedValueGet(), mean, (W + ": mean").c_str()); int b = m.MostProbableComponentGet(); CHECK(b >= 0 && b < s.size(), (W + ": most probable exists").c_str()); if (b >= 0 && b < s.size()) for (int i = 0; i < s.size(); i++) { if (i < b) CHECK_LT(s.w[i], s.w[b], (W + ": first most probable").c_str()); else CHECK_LE(s.w[i], s.w[b], (W + ": most probable").c_str()); } }
static Gaussian comp(const Vd &mu) { return Gaussian(toC(mu), toS(ident(mu.size()))); }
static MX build(Mixture<ColumnVector> *&m, int n, int d, bool weights) { MX s; std::vector<Pdf<ColumnVector> *> v; for (int i = 0; i < n; i++) { s.mu.push_back(symV("mu", d)); v.push_back(new Gaussian(comp(s.mu[i]))); s.w.push_back(1.0 / n); } m = new Mixture<ColumnVector>(v); for (auto p : v) delete p; if (weights) { std::vector<Probability> p; for (int i = 0; i < n; i++) { s.w[i] = sym_real("w"); ASSUME_GE(s.w[i], 0.0); p.push_back(Probability(s.w[i])); } ASSUME_GT(s.total(), 0.0); s.norm(); CHECK(m->WeightsSet(p), "weights accepted"); } return s; }
CASE(construct) { int n = sym_int("n", 1, 5), d = sym_int("d", 1, 3); Mixture<ColumnVector> *m; MX s = build(m, n, d, false); CHECK(m->DimensionGet() == (unsigned)d, "dimension"); eqMix(*m, s, "new mixture"); delete m; REACH("end"); }
CASE(weights) { int n = sym_int("n", 1, 4), d = sym_int("d", 1, 2); Mixture<ColumnVector> *m; MX s = build(m, n, d, true); eqMix(*m, s, "weights set"); delete m; REACH("end"); }
static void wset(MX &s, int i, double w) { if (s.size() == 1) return; double o = s.w[i]; if (o != 1.0) for (double &x : s.w) x = x * ((1 - w) / (1 - o)); else for (double &x : s.w) x = (1 - w) / (s.size() - 1); s.w[i] = w; }
static void ops(int n, int len, int opmax) { Mixture<ColumnVector> *m; MX s = build(m, n, 1, true); for (int t = 0; t < len; t++) { int op = sym_int("op", 0, opmax); if (op == 0 && s.size() > 1) { int i = sym_int("i", 0, s.size() - 1); double w = sym_range("a", 0, 1); CHECK(m->WeightSet(i, Probability(w)), "weight accepted"); wset(s, i, w); } else if (op == 1) { Vd mu = symV("new", 1); Gaussian g = comp(mu); CHECK(m->AddComponent(g), "component accepted"); g.ExpectedValueSet(toC(Vd(1, 77.0))); s.mu.push_back(mu); s.w.push_back(0.0); } else if (op == 2) { Vd mu = symV("new", 1); Gaussian g = comp(mu); double w = sym_range("a", 0, 1); CHECK(m->AddComponent(g, Probability(w)), "component accepted"); s.mu.push_back(mu); s.w.push_back(0.0); wset(s, s.size() - 1, w); } else if (op == 3 && s.size() > 1) { int i = sym_int("i", 0, s.size() - 1); s.w.erase(s.w.begin() + i); s.mu.erase(s.mu.begin() + i); double tot = s.total(); bool ok = m->DeleteComponent(i); if (tot > 0) { CHECK(ok, "deleted"); s.norm(); } else { CHECK(!ok, "nothing left to normalise is reported"); sym_end_path(); } } else if (op == 4) { std::vector<Probability> p; for (int i = 0; i < s.size(); i++) { s.w[i] = sym_real("v"); ASSUME_GE(s.w[i], 0.0); p.push_back(Probability(s.w[i])); } ASSUME_GT(s.total(), 0.0); s.norm(); CHECK(m->WeightsSet(p), "weights accepted"); } else sym_end_path(); } double tot = 0; for (int i = 0; i < s.size(); i++) { double x = m->WeightGet(i); tot = tot + x; CHECK_GE(x, 0.0, "weights not negative"); } CHECK_EQ(tot, 1.0, "weights sum to one"); eqMix(*m, s, "after changes"); delete m; REACH("end"); }
CASE(change_1) { ops(sym_int("n", 1, 4), 1, 4); }
CASE(change_2) { ops(2, 2, 4); }
CASE(build_up) { // from an empty mixture
  Mixture<ColumnVector> m(1u); MX s; int n = sym_int("n", 1, 4); CHECK(m.NumComponentsGet() == 0, "empty"); for (int i = 0; i < n; i++) { Vd mu = symV("mu", 1); Gaussian g = comp(mu); s.mu.push_back(mu); s.w.push_back(0.0); if (sym_int("weighted", 0, 1)) { double w = sym_range("w", 0, 1); CHECK(m.AddComponent(g, Probability(w)), "added"); if (i) wset(s, i, w); else s.w[0] = 1.0; } else { CHECK(m.AddComponent(g), "added"); if (!i) s.w[0] = 1.0; } } eqMix(m, s, "built up"); REACH("end"); }
CASE(delete_all) { Mixture<ColumnVector> *m; int n = sym_int("n", 1, 2); MX s = build(m, n, 1, false); for (int i = n; i > 0; i--) CHECK(m->DeleteComponent(i - 1), "deleted"); CHECK(m->NumComponentsGet() == 0, "empty again"); Vd mu = symV("mu'", 1); Gaussian g = comp(mu); CHECK(m->AddComponent(g, Probability(0.5)), "added"); s.mu.assign(1, mu); s.w.assign(1, 1.0); eqMix(*m, s, "refilled"); delete m; REACH("end"); }
CASE(density) { int n = sym_int("n", 1, 3); std::vector<Vd> mu; std::vector<Md> S; std::vector<Pdf<ColumnVector> *> v; for (int i = 0; i < n; i++) { mu.push_back(symV("mu", 1)); S.push_back(symSPD("s", 1)); v.push_back(new Gaussian(toC(mu[i]), toS(S[i]))); } Mixture<ColumnVector> m(v); for (auto p : v) delete p; std::vector<Probability> w; double tot = 0; Vd ws = symV("w", n); for (double x : ws) { ASSUME_GE(x, 0.0); tot = tot + x; w.push_back(Probability(x)); } ASSUME_GT(tot, 0.0); m.WeightsSet(w); Vd x = symV("x", 1); double e = 0; for (int i = 0; i < n; i++) e = e + (ws[i] / tot) * dens(mu[i], S[i], x); CHECK_EQ((double)m.ProbabilityGet(toC(x)), e, "mixture density"); REACH("end"); }
CASE(density_2d) { int n = sym_int("n", 1, 3); std::vector<Vd> mu; std::vector<Pdf<ColumnVector> *> v; for (int i = 0; i < n; i++) { mu.push_back(symV("mu", 2)); v.push_back(new Gaussian(toC(mu[i]), toS(conc(2, i)))); } Mixture<ColumnVector> m(v); for (auto p : v) delete p; double a = sym_range("a", 0, 1); if (n > 1) m.WeightSet(0, Probability(a)); else a = 1; Vd x = symV("x", 2); double e = 0; for (int i = 0; i < n; i++) e = e + (i ? (1 - a) / (n - 1) : a) * dens(mu[i], conc(2, i), x); CHECK_EQ((double)m.ProbabilityGet(toC(x)), e, "mixture density"); REACH("end"); }
CASE(discrete) { int n = sym_int("n", 1, 2), k = sym_int("k", 2, 3); std::vector<DiscretePdf *> v; std::vector<Vd> p; for (int i = 0; i < n; i++) { v.push_back(new DiscretePdf(k)); Vd q = symV("p", k); double t = 0; std::vector<Probability> pr; for (double x : q) { ASSUME_GE(x, 0.0); t = t + x; pr.push_back(Probability(x)); } ASSUME_GT(t, 0.0); v[i]->ProbabilitiesSet(pr); for (double &x : q) x = x / t; p.push_back(q); } Mixture<int> m(v); for (auto q : v) delete q; double a = sym_range("a", 0, 1); if (n == 2) m.WeightSet(1, Probability(a)); else a = 0; Vd e(k); for (int j = 0; j < k; j++) { e[j] = (1 - a) * p[0][j] + (n == 2 ? a * p[1][j] : 0.0); CHECK_EQ((double)m.ProbabilityGet(j), e[j], "discrete mixture probability"); } int b = m.ExpectedValueGet(); CHECK(b >= 0 && b < k, "a state"); if (b >= 0 && b < k) for (int j = 0; j < k; j++) { if (j < b) CHECK_LT(e[j], e[b], "first most probable state"); else CHECK_LE(e[j], e[b], "most probable state"); } REACH("end"); }
CASE(copies) { int n = sym_int("n", 1, 3); Mixture<ColumnVector> *m; MX s = build(m, n, 1, true), t = s; Mixture<ColumnVector> c(*m), *k = m->Clone(); Gaussian g = comp(Vd(1, 5.0)); m->AddComponent(g, Probability(0.25)); dynamic_cast<Gaussian *>(m->ComponentGet(0))->ExpectedValueSet(toC(Vd(1, 9.0))); eqMix(c, s, "copy"); eqMix(*k, s, "clone"); c.DeleteComponent(0); eqMix(*k, s, "clone after change of the copy"); delete m; eqMix(*k, s, "clone outlives the original"); std::vector<Pdf<ColumnVector> *> L = k->ComponentsGet(); CHECK((int)L.size() == n && L[0] == k->ComponentGet(0), "component list"); delete k; REACH("end"); }
CASE(assignment) { int n = sym_int("n", 1, 3), n2 = sym_int("n2", 0, 2); Mixture<ColumnVector> *m, *q; MX s = build(m, n, 1, true); if (n2) build(q, n2, 1, false); else q = new Mixture<ColumnVector>(1u); *q = *m; eqMix(*q, s, "assigned"); Gaussian g = comp(Vd(1, 5.0)); m->AddComponent(g, Probability(0.25)); eqMix(*q, s, "assigned is independent"); delete m; eqMix(*q, s, "assigned outlives the source"); *q = *q; eqMix(*q, s, "self assignment"); delete q; REACH("end"); }
CASE(copy_empty) { double x = sym_real("x"); Mixture<ColumnVector> m(1u); Mixture<ColumnVector> c(m), *k = m.Clone(); CHECK(c.NumComponentsGet() == 0 && k->NumComponentsGet() == 0, "copy of an empty mixture"); Gaussian g = comp(Vd(1, x)); CHECK(c.AddComponent(g), "added"); MX s; s.mu.push_back(Vd(1, x)); s.w.push_back(1.0); eqMix(c, s, "filled copy"); delete k; REACH("end"); }
CASE_T(change_3) { ops(2, 3, 4); }
CASE_T(change_n) { ops(5, 1, 4); }
struct Pt : public Pdf<double> { double m; Pt(double x) : Pdf<double>(1), m(x) {} Pt *Clone() const { return new Pt(*this); } double ExpectedValueGet() const { return m; } };
CASE(scalar_mean) { int n = sym_int("n", 1, 4); std::vector<Pt *> v; Vd x = symV("x", n), w; std::vector<Probability> pr; double t = 0, e = 0; for (int i = 0; i < n; i++) { v.push_back(new Pt(x[i])); w.push_back(n == 1 ? 1.0 : sym_real("w")); ASSUME_GE(w[i], 0.0); t = t + w[i]; pr.push_back(Probability(w[i])); } ASSUME_GT(t, 0.0); Mixture<double> m(v); for (Pt *p : v) delete p; m.WeightsSet(pr); for (int i = 0; i < n; i++) e = e + w[i] / t * x[i]; CHECK_EQ(m.ExpectedValueGet(), e, "mean of a scalar mixture"); REACH("end"); }
CASE(sizes) { int n = sym_int("n", 5, 9), d = sym_int("d", 1, 4), op = sym_int("op", 0, 2); MX s; std::vector<Pdf<ColumnVector> *> v; for (int i = 0; i < n; i++) { s.mu.push_back(symV("mu", d)); v.push_back(new Gaussian(comp(s.mu[i]))); s.w.push_back(1 + (i * 5) % 7); } s.w[n - 1] = sym_real("w"); ASSUME_GE(s.w[n - 1], 0.0); std::vector<Probability> p; for (double x : s.w) p.push_back(Probability(x)); Mixture<ColumnVector> m(v); for (auto q : v) delete q; CHECK(m.WeightsSet(p), "weights accepted"); s.norm(); eqMix(m, s, "large mixture"); Mixture<ColumnVector> c(m); MX s0 = s; if (op == 0) { int i = sym_int("i", 0, 8); ASSUME(i < n); m.DeleteComponent(i); s.w.erase(s.w.begin() + i); s.mu.erase(s.mu.begin() + i); s.norm(); } else if (op == 1) { int i = sym_int("i", 0, 8); ASSUME(i < n); double a = sym_range("a", 0, 1); m.WeightSet(i, Probability(a)); wset(s, i, a); } else { Vd mu = symV("new", d); Gaussian g = comp(mu); double a = sym_range("a", 0, 1); Probability pa(a); m.AddComponent(g, pa); s.mu.push_back(mu); s.w.push_back(0.0); wset(s, s.size() - 1, a); } eqMix(m, s, "changed"); eqMix(c, s0, "copy"); REACH("end"); }
// far beyond the fully symbolic sizes: fixed values apart from a few free ones
CASE(big) { int n = sym_int("n", 0, 1) ? 20 : 40; std::vector<Pdf<ColumnVector> *> v; Vd w, mu; double t = 0; for (int i = 0; i < n; i++) { mu.push_back(i == n - 1 ? sym_real("mu") : 0.5 * i); v.push_back(new Gaussian(toC(Vd(1, mu[i])), toS(ident(1)))); w.push_back(1 + (i * 5) % 7); t += w[i]; } Mixture<ColumnVector> m(v); for (auto p : v) delete p; std::vector<Probability> p; for (double x : w) p.push_back(Probability(x)); for (double &x : w) x = x / t; m.WeightsSet(p); CHECK((int)m.NumComponentsGet() == n, "number of components"); double e = 0; for (int i = 0; i < n; i++) { CHECK_EQ((double)m.WeightGet(i), w[i], "weight"); e = e + w[i] * mu[i]; } eqC(m.ExpectedValueGet(), Vd(1, e), "mean"); double a = sym_range("a", 0, 1); int k = sym_int("k", 0, 1) ? n - 2 : 1; m.WeightSet(k, Probability(a)); for (int i = 0; i < n; i++) CHECK_EQ((double)m.WeightGet(i), i == k ? a : w[i] * (1 - a) / (1 - w[k]), "weight after a change"); REACH("end"); }
