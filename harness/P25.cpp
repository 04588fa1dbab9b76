// Histogram filter: prediction is the total-probability sum over the previous states, correction is Bayes' rule, the prior is left alone.
#include "common.h"
#include <filter/histogramfilter.h>
#include <model/discretesystemmodel.h>
#include <pdf/discreteconditionalpdf.h>
using namespace BFL;
static Vd dist(const char *nme, int n) { Vd v = symV(nme, n - 1); double s = 0; for (double x : v) { ASSUME_GE(x, 0.0); s = s + x; } v.push_back(1.0 - s); ASSUME_GE(v[n - 1], 0.0); return v; }
// transition or sensor table: t[u][from][to]
struct Tab { std::vector<std::vector<Vd> > t; DiscreteConditionalPdf *p; int n, k; Tab(const char *nme, int to, int from, int ins, bool norm = true) : n(from), k(ins) { int D[2] = {from, ins}; p = new DiscreteConditionalPdf(to, ins ? 2 : 1, D); for (int u = 0; u < (ins ? ins : 1); u++) { t.push_back(std::vector<Vd>()); for (int f = 0; f < from; f++) { Vd v; if (norm) v = dist(nme, to); else { v = symV(nme, to); for (double x : v) ASSUME_GE(x, 0.0); } t[u].push_back(v); std::vector<int> a(1, f); if (ins) a.push_back(u); for (int i = 0; i < to; i++) p->ProbabilitySet(v[i], i, a); } } } ~Tab() { delete p; } };
static Vd sys(const Vd &p, const Tab &T, int u) { int n = p.size(); Vd r(n, 0.0); for (int i = 0; i < n; i++) for (int f = 0; f < n; f++) r[i] = r[i] + T.t[u][f][i] * p[f]; return r; }
static Vd meas(const Vd &p, const Vd &L) { Vd r = p; double s = 0; for (size_t i = 0; i < p.size(); i++) { r[i] = p[i] * L[i]; s = s + r[i]; } ASSUME_GT(s, 0.0); for (double &x : r) x = x / s; return r; }
static Vd like(const Tab &M, int s, int z) { Vd L; for (int i = 0; i < M.n; i++) L.push_back(M.t[s][i][z]); return L; }
static void eqD(DiscretePdf *d, const Vd &p, const char *w) { CHECK(d->NumStatesGet() == p.size(), "number of states"); for (size_t i = 0; i < p.size(); i++) CHECK_EQ((double)d->ProbabilityGet(i), p[i], w); std::vector<Probability> a = d->ProbabilitiesGet(); for (size_t i = 0; i < p.size() && i < a.size(); i++) CHECK_EQ((double)a[i], p[i], w); }
static void load(DiscretePdf &d, const Vd &p) { std::vector<Probability> v; for (double x : p) v.push_back(x); d.ProbabilitiesSet(v); }
CASE(initial) { int n = sym_int("n", 1, 5); Vd p = dist("p", n); DiscretePdf prior(n); load(prior, p); HistogramFilter<int> f(&prior); eqD(f.PostGet(), p, "posterior before any update"); REACH("end"); }
CASE(predict) { int n = sym_int("n", 1, 4), in = sym_int("in", 0, 2); Vd p = dist("p", n); DiscretePdf prior(n); load(prior, p); Tab T("t", n, n, in); DiscreteSystemModel m(T.p); HistogramFilter<int> f(&prior); Vd r; if (in) { int u = sym_int("u", 0, in - 1); CHECK(f.Update(&m, u), "update succeeds"); r = sys(p, T, u); } else { CHECK(f.Update(&m), "update succeeds"); r = sys(p, T, 0); } eqD(f.PostGet(), r, "prediction"); eqD(&prior, p, "prior not touched"); REACH("end"); }
CASE(predict_twice) { int n = sym_int("n", 2, 3); Vd p = dist("p", n); DiscretePdf prior(n); load(prior, p); Tab T("t", n, n, 0), T2("s", n, n, 0); DiscreteSystemModel m(T.p), m2(T2.p); HistogramFilter<int> f(&prior); f.Update(&m); f.Update(&m2); eqD(f.PostGet(), sys(sys(p, T, 0), T2, 0), "two predictions"); REACH("end"); }
CASE(correct) { int n = sym_int("n", 1, 4), in = sym_int("in", 0, 2), nz = sym_int("nz", 1, 3), z = sym_int("z", 0, 2); ASSUME(z < nz); Vd p = dist("p", n); DiscretePdf prior(n); load(prior, p); Tab M("m", nz, n, in); MeasurementModel<int, int> m(M.p); HistogramFilter<int> f(&prior); int s = in ? sym_int("s", 0, in - 1) : 0; Vd r = meas(p, like(M, s, z)); if (in) CHECK(f.Update(&m, z, s), "update succeeds"); else CHECK(f.Update(&m, z), "update succeeds"); eqD(f.PostGet(), r, "correction"); eqD(&prior, p, "prior not touched"); REACH("end"); }
CASE(correct_twice) { int n = sym_int("n", 2, 3), z1 = sym_int("z", 0, 1), z2 = sym_int("z", 0, 1); Vd p = dist("p", n); DiscretePdf prior(n); load(prior, p); Tab M("m", 2, n, 0); MeasurementModel<int, int> m(M.p); HistogramFilter<int> f(&prior); Vd r = meas(meas(p, like(M, 0, z1)), like(M, 0, z2)); f.Update(&m, z1); f.Update(&m, z2); eqD(f.PostGet(), r, "two corrections"); REACH("end"); }
CASE(combined) { int n = sym_int("n", 1, 3), in = sym_int("in", 0, 1), sp = sym_int("sp", 0, 1), u = sym_int("u", 0, 1), s = sym_int("s", 0, 1), z = sym_int("z", 0, 1); ASSUME((in || !u) && (sp || !s)); Vd p = dist("p", n); DiscretePdf prior(n); load(prior, p); Tab T("t", n, n, in * 2), M("m", 2, n, sp * 2); DiscreteSystemModel sm(T.p); MeasurementModel<int, int> m(M.p); HistogramFilter<int> f(&prior); Vd r = meas(sys(p, T, u), like(M, s, z)); bool ok = in && sp ? f.Update(&sm, u, &m, z, s) : in ? f.Update(&sm, u, &m, z) : sp ? f.Update(&sm, &m, z, s) : f.Update(&sm, &m, z); CHECK(ok, "update succeeds"); eqD(f.PostGet(), r, "prediction and correction in one update"); eqD(&prior, p, "prior not touched"); REACH("end"); }
CASE(alternate) { int n = 2; Vd p = dist("p", n); DiscretePdf prior(n); load(prior, p); Tab T("t", n, n, 2), M("m", 2, n, 0); DiscreteSystemModel sm(T.p); MeasurementModel<int, int> m(M.p); HistogramFilter<int> f(&prior); Vd r = p; for (int k = 0; k < 3; k++) { if (sym_int("op", 0, 1)) { int u = sym_int("u", 0, 1); r = sys(r, T, u); f.Update(&sm, u); } else { int z = sym_int("z", 0, 1); r = meas(r, like(M, 0, z)); f.Update(&m, z); } } eqD(f.PostGet(), r, "any order of updates"); REACH("end"); }
// continuous measurements of a discrete state: the likelihood is whatever the user's density returns
struct Cont : public ConditionalPdf<ColumnVector, int> { Md a; Cont(const Md &x, int na) : ConditionalPdf<ColumnVector, int>(1, na), a(x) {} Probability ProbabilityGet(const ColumnVector &z) const { int x = ConditionalArgumentGet(0), s = NumConditionalArgumentsGet() > 1 ? ConditionalArgumentGet(1) : 0; double d = z(1) - a[s][x]; return d * d; } };
CASE(continuous_measurement) { int n = sym_int("n", 1, 3), in = sym_int("in", 0, 1), s = in ? sym_int("s", 0, 1) : 0; Vd p = dist("p", n), z = symV("z", 1); DiscretePdf prior(n); load(prior, p); Md a = symM("a", 2, n); Cont c(a, in ? 2 : 1); MeasurementModel<ColumnVector, int> m(&c); HistogramFilter<ColumnVector> f(&prior); Vd L; for (int i = 0; i < n; i++) L.push_back((z[0] - a[s][i]) * (z[0] - a[s][i])); Vd r = meas(p, L); if (in) f.Update(&m, toC(z), s); else f.Update(&m, toC(z)); eqD(f.PostGet(), r, "correction by a continuous measurement"); REACH("end"); }
CASE(certain_stays) { // a likelihood of zero excludes a state for good
  int n = sym_int("n", 2, 3), k = sym_int("k", 0, 2); ASSUME(k < n); Vd p = dist("p", n); DiscretePdf prior(n); load(prior, p); Tab M("m", 2, n, 0), M2("w", 2, n, 0); ASSUME_EQ(M.t[0][k][0], 0.0); MeasurementModel<int, int> m(M.p), m2(M2.p); HistogramFilter<int> f(&prior); Vd r = meas(meas(p, like(M, 0, 0)), like(M2, 0, 1)); f.Update(&m, 0); f.Update(&m2, 1); CHECK_EQ((double)f.PostGet()->ProbabilityGet(k), 0.0, "excluded state"); double s = 0; for (int i = 0; i < n; i++) { s = s + (double)f.PostGet()->ProbabilityGet(i); CHECK_GE((double)f.PostGet()->ProbabilityGet(i), 0.0, "non-negative"); } CHECK_EQ(s, 1.0, "sums to one"); REACH("end"); }
CASE_T(predict_large) { int n = sym_int("n", 5, 6); Vd p = dist("p", n); DiscretePdf prior(n); load(prior, p); Tab T("t", n, n, 2); DiscreteSystemModel m(T.p); HistogramFilter<int> f(&prior); int u = sym_int("u", 0, 1); f.Update(&m, u); eqD(f.PostGet(), sys(p, T, u), "prediction"); REACH("end"); }
CASE_T(history) { int n = 3; Vd p = dist("p", n); DiscretePdf prior(n); load(prior, p); Tab T("t", n, n, 0), M("m", 2, n, 0); DiscreteSystemModel sm(T.p); MeasurementModel<int, int> m(M.p); HistogramFilter<int> f(&prior); Vd r = p; for (int k = 0; k < 3; k++) { if (sym_int("op", 0, 1)) { r = sys(r, T, 0); f.Update(&sm); } else { int z = sym_int("z", 0, 1); r = meas(r, like(M, 0, z)); f.Update(&m, z); } } eqD(f.PostGet(), r, "any order of updates"); REACH("end"); }
// larger state spaces: a concrete table with one free row, a free belief
static Vd row(int n, int c) { Vd v(n); double s = 0; for (int i = 0; i < n; i++) { v[i] = 1 + (i * 3 + c * 2) % 5; s = s + v[i]; } for (double &x : v) x = x / s; return v; }
struct Big : public Tab { Big(int to, int from, int ins, int fr) : Tab("t", 1, 1, 0) { delete p; int D[2] = {from, ins}; n = from; k = ins; t.clear(); p = new DiscreteConditionalPdf(to, ins ? 2 : 1, D); for (int u = 0; u < (ins ? ins : 1); u++) { t.push_back(std::vector<Vd>()); for (int f = 0; f < from; f++) { Vd v = row(to, f + 5 * u); if (f == fr) { double q = sym_real("q"); ASSUME_GE(q, 0.0); ASSUME_LE(q, 1.0); v = Vd(to, 0.0); v[0] = q; v[to - 1] = v[to - 1] + 1.0 - q; } t[u].push_back(v); std::vector<int> a(1, f); if (ins) a.push_back(u); for (int i = 0; i < to; i++) p->ProbabilitySet(v[i], i, a); } } } };
static Vd belief(int n, int k) { Vd v = row(n, 7); double a = sym_real("b"); ASSUME_GE(a, 0.0); ASSUME_LE(a, v[k]); v[(k + 2) % n] = v[(k + 2) % n] + v[k] - a; v[k] = a; return v; }
CASE(sizes_predict) { int n = sym_int("n", 6, 12), u = sym_int("u", 0, 4), fr = sym_int("fr", 0, 11); ASSUME((n == 6 || n == 9 || n == 12) && fr < n && (fr == 0 || fr == n - 1) && (u == 0 || u == 4)); Vd p = belief(n, n / 2); DiscretePdf prior(n); load(prior, p); Big T(n, n, 5, fr); DiscreteSystemModel m(T.p); HistogramFilter<int> f(&prior); f.Update(&m, u); eqD(f.PostGet(), sys(p, T, u), "prediction"); eqD(&prior, p, "prior not touched"); REACH("end"); }
CASE(sizes_correct) { int n = sym_int("n", 6, 12), nz = 7, z = sym_int("z", 0, 6); ASSUME((n == 6 || n == 9 || n == 12) && (z == 0 || z == 3 || z == 6)); Vd p = belief(n, n - 1); DiscretePdf prior(n); load(prior, p); Big M(nz, n, 0, 2); MeasurementModel<int, int> m(M.p); HistogramFilter<int> f(&prior); Vd r = meas(p, like(M, 0, z)); f.Update(&m, z); eqD(f.PostGet(), r, "correction"); eqD(&prior, p, "prior not touched"); REACH("end"); }
CASE(many_updates) { int n = 3; Vd p = belief(n, 1); DiscretePdf prior(n); load(prior, p); Big T(n, n, 0, -1), M(2, n, 0, -1); DiscreteSystemModel sm(T.p); MeasurementModel<int, int> m(M.p); HistogramFilter<int> f(&prior); Vd r = p; for (int k = 0; k < 10; k++) { if (k % 3 == 1) { r = meas(r, like(M, 0, k % 2)); f.Update(&m, k % 2); } else { r = sys(r, T, 0); f.Update(&sm); } } eqD(f.PostGet(), r, "after many updates"); REACH("end"); }
// far beyond the fully symbolic sizes: fixed values apart from a few free ones
CASE(big) { int n = sym_int("n", 0, 1) ? 20 : 40; Vd p = belief(n, n / 2); DiscretePdf prior(n); load(prior, p); Big T(n, n, 2, n - 1), M(18, n, 0, -1); DiscreteSystemModel m(T.p); MeasurementModel<int, int> mm(M.p); HistogramFilter<int> f(&prior); f.Update(&m, 1); Vd r = sys(p, T, 1); eqD(f.PostGet(), r, "prediction"); f.Update(&mm, 17); eqD(f.PostGet(), meas(r, like(M, 0, 17)), "correction"); eqD(&prior, p, "prior not touched"); REACH("end"); }
CASE(big_history) { int n = 3; Vd p = row(n, 7); double a = sym_real("b"); ASSUME_GE(a, 0.0); ASSUME_LE(a, p[1]); p[0] = p[0] + p[1] - a; p[1] = a; DiscretePdf prior(n); load(prior, p); Big T(n, n, 0, -1), M(2, n, 0, -1); DiscreteSystemModel sm(T.p); MeasurementModel<int, int> m(M.p); HistogramFilter<int> f(&prior); Vd r = p; for (int k = 0; k < 36; k++) { if (k % 3 == 1) { r = meas(r, like(M, 0, k % 2)); f.Update(&m, k % 2); } else { r = sys(r, T, 0); f.Update(&sm); } } eqD(f.PostGet(), r, "after many updates"); REACH("end"); }
