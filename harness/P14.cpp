// Sample-based densities: normalised weights, cumulative distribution, mean and covariance, for every history of updates.
#include "common.h"
#include "mc.h"
static WS unif(const WS &s) { WS r = s; for (double &v : r.w) v = 1.0 / s.size(); return r; }
CASE(weighted) { int n = sym_int("n", 1, 4), d = sym_int("d", 1, 3); WS s = symWS("", n, d); MCPdf<ColumnVector> p(sym_int("pre", 0, 2), d); CHECK(p.ListOfSamplesSet(toW(s)), "accepted"); CHECK(p.DimensionGet() == (unsigned)d, "dimension"); eqMC(p, s.norm(), "weighted list", n * d <= 6); REACH("end"); }
CASE(unweighted) { int n = sym_int("n", 1, 5), d = sym_int("d", 1, 3); WS s = symWS("", n, d); MCPdf<ColumnVector> p(sym_int("pre", 0, 2), d); CHECK(p.ListOfSamplesSet(toU(s)), "accepted"); eqMC(p, unif(s), "unweighted list"); REACH("end"); }
CASE(update) { int n = sym_int("n", 1, 3), d = sym_int("d", 1, 2); WS s = symWS("", n, d), t = symWS("t", n, d); MCPdf<ColumnVector> p(n, d); if (sym_int("first", 0, 1)) p.ListOfSamplesSet(toW(s)); if (sym_int("weighted", 0, 1)) { CHECK(p.ListOfSamplesUpdate(toW(t)), "accepted"); eqMC(p, t.norm(), "weighted update"); } else { CHECK(p.ListOfSamplesUpdate(toU(t)), "accepted"); eqMC(p, unif(t), "unweighted update"); } REACH("end"); }
CASE(scale_free) { // only weight ratios matter
  int n = sym_int("n", 1, 3); WS s = symWS("", n, 1), t = s; double k = sym_real("k"); ASSUME_GT(k, 0.0); for (double &v : t.w) v = v * k; MCPdf<ColumnVector> p(n, 1), q(n, 1); p.ListOfSamplesSet(toW(s)); q.ListOfSamplesSet(toW(t)); eqMC(p, s.norm(), "list"); eqMC(q, s.norm(), "scaled list"); double tot = 0; for (int i = 0; i < n; i++) { tot = tot + q.SampleGet(i).WeightGet(); CHECK_GE(q.SampleGet(i).WeightGet(), 0.0, "weights not negative"); } CHECK_EQ(tot, 1.0, "weights sum to one"); REACH("end"); }
static void hist(int d, int len) { MCPdf<ColumnVector> p(1, d); WS cur = symWS("", 1, d); p.ListOfSamplesSet(toW(cur)); cur = cur.norm(); for (int k = 0; k < len; k++) { int op = sym_int("op", 0, 5); if (op == 0) { WS s = symWS("a", sym_int("n", 1, 3), d); p.ListOfSamplesSet(toW(s)); cur = s.norm(); } else if (op == 1) { WS s = symWS("b", sym_int("n", 1, 3), d); p.ListOfSamplesSet(toU(s)); cur = unif(s); } else if (op == 2) { WS s = symWS("c", cur.size(), d); p.ListOfSamplesUpdate(toW(s)); cur = s.norm(); } else if (op == 3) { p.ExpectedValueGet(); p.CovarianceGet(); } else if (op == 4) { MCPdf<ColumnVector> q(p); WS s = symWS("e", 2, d); p.ListOfSamplesSet(toW(s)); eqMC(q, cur, "copy", false); p = q; s = symWS("f", 1, d); q.ListOfSamplesSet(toW(s)); } else { std::vector<WeightedSample<ColumnVector> > L = p.ListOfSamplesGet(); p.ListOfSamplesUpdate(L); } } eqMC(p, cur, "after a history"); REACH("end"); }
CASE(history_1) { hist(1, 2); }
CASE(history_2) { hist(2, 1); }
CASE(copies) { int n = sym_int("n", 1, 3), d = sym_int("d", 1, 2); WS s = symWS("", n, d), t = symWS("t", sym_int("m", 1, 3), d); MCPdf<ColumnVector> p(n, d); p.ListOfSamplesSet(toW(s)); MCPdf<ColumnVector> c(p); MCPdf<ColumnVector> *k = p.Clone(); MCPdf<ColumnVector> a(1, d); a = p; p.ListOfSamplesSet(toW(t)); eqMC(c, s.norm(), "copy"); eqMC(*k, s.norm(), "clone"); eqMC(a, s.norm(), "assigned"); eqMC(p, t.norm(), "original"); c.ListOfSamplesSet(toW(t)); eqMC(*k, s.norm(), "clone after change of copy"); delete k; REACH("end"); }
CASE(source_list_not_shared) { int n = sym_int("n", 1, 3); WS s = symWS("", n, 1); MCPdf<ColumnVector> p(n, 1); std::vector<WeightedSample<ColumnVector> > L = toW(s); p.ListOfSamplesSet(L); eqList(L, s, "caller's list"); L[0].ValueSet(toC(Vd(1, 7.0))); L[0].WeightSet(9.0); eqMC(p, s.norm(), "list"); REACH("end"); }
CASE(zero_total) { int n = sym_int("n", 1, 3); WS s = symWS("", n, 1); for (double &v : s.w) v = 0.0; MCPdf<ColumnVector> p(n, 1); CHECK(!p.ListOfSamplesSet(toW(s)), "a list without weight is reported"); CHECK(!p.ListOfSamplesUpdate(toW(s)), "an update without weight is reported"); WS t = symWS("t", n, 1); CHECK(p.ListOfSamplesSet(toW(t)), "recovers"); eqMC(p, t.norm(), "after a rejected list"); REACH("end"); }
CASE(discrete) { int n = sym_int("n", 1, 3); std::vector<WeightedSample<unsigned int> > L(n); Vd w; std::vector<int> v; double s = 0; for (int i = 0; i < n; i++) { v.push_back(sym_int("v", 0, 3)); w.push_back(sym_real("w")); ASSUME_GE(w[i], 0.0); s = s + w[i]; L[i].ValueSet(v[i]); L[i].WeightSet(w[i]); } ASSUME_GT(s, 0.0); MCPdf<unsigned int> p(n, 1); CHECK(p.ListOfSamplesSet(L), "accepted"); double m = 0; for (int i = 0; i < n; i++) m = m + v[i] * (w[i] / s); unsigned e = p.ExpectedValueGet(); CHECK_LE((double)e, m + 0.5, "rounded mean"); CHECK_LE(m - 0.5, (double)e, "rounded mean"); double c = 0; for (int i = 0; i < n; i++) c = c + (v[i] - (double)e) * (v[i] - (double)e) * (w[i] / s); CHECK_EQ(p.CovarianceGet()(1, 1), c, "variance"); REACH("end"); }
CASE_T(weighted_more) { int n = sym_int("n", 5, 6), d = sym_int("d", 1, 4); WS s = symWS("", n, d); MCPdf<ColumnVector> p(n, d); CHECK(p.ListOfSamplesSet(toW(s)), "accepted"); eqMC(p, s.norm(), "weighted list", d <= 1); REACH("end"); }
CASE_T(unweighted_more) { int n = sym_int("n", 6, 8), d = sym_int("d", 1, 4); WS s = symWS("", n, d); MCPdf<ColumnVector> p(n, d); CHECK(p.ListOfSamplesSet(toU(s)), "accepted"); eqMC(p, unif(s), "unweighted list"); REACH("end"); }
CASE_T(history_3) { hist(1, 3); }
// many samples with fixed values and weights, one of each symbolic
static WS many(int n, int d, int s) { WS r; for (int i = 0; i < n; i++) { Vd x(d); for (int j = 0; j < d; j++) x[j] = (i * 5 + j * 3 + s) % 11 - 5; r.x.push_back(x); r.w.push_back(1 + (i * 5 + s) % 7); } r.x[n - 1][d - 1] = sym_real("x"); r.x[0][0] = sym_real("x0"); r.w[n / 2] = sym_real("w"); ASSUME_GE(r.w[n / 2], 0.0); return r; }
CASE(sizes) { int n = sym_int("n", 6, 12), m = sym_int("m", 6, 10), d = sym_int("d", 1, 5); ASSUME(n == 6 || n == 12 || d == 1); WS s = many(n, d, 0), t = many(m, d, 1), q = many(m, d, 2); MCPdf<ColumnVector> p(n, d); CHECK(p.ListOfSamplesSet(toW(s)), "accepted"); eqMC(p, s.norm(), "weighted list"); MCPdf<ColumnVector> c(p); p.ListOfSamplesSet(toW(t)); eqMC(p, t.norm(), "list of another size"); CHECK(p.ListOfSamplesUpdate(toW(q)), "accepted"); eqMC(p, q.norm(), "update"); eqMC(c, s.norm(), "copy"); c = p; p.ListOfSamplesSet(toU(s)); eqMC(p, unif(s), "unweighted"); eqMC(c, q.norm(), "assigned"); REACH("end"); }
CASE(dimensionless) { // the dimension is known from the samples only
  int n = sym_int("n", 1, 3), d = sym_int("d", 1, 3), how = sym_int("how", 0, 3); WS s = symWS("", n, d), t = symWS("t", 2, d); MCPdf<ColumnVector> p; MCPdf<ColumnVector> z(n); MCPdf<ColumnVector> &r = how == 1 ? z : p; if (how == 3) r.ListOfSamplesSet(toU(s)); else r.ListOfSamplesSet(toW(s)); if (how == 2) { eqMC(r, s.norm(), "list"); r.ListOfSamplesSet(toW(t)); } WS e = how == 2 ? t.norm() : how == 3 ? unif(s) : s.norm(); eqMC(r, e, "list"); MCPdf<ColumnVector> c(r), *k = r.Clone(), a; a = r; eqMC(c, e, "copy"); eqMC(*k, e, "clone"); eqMC(a, e, "assigned"); delete k; REACH("end"); }
CASE(discrete_large) { // far apart, without a dimension
  int n = sym_int("n", 1, 3), far = sym_int("far", 0, 3); static const unsigned F[] = {40000u, 70000u, 200000u, 3000000000u}; std::vector<WeightedSample<unsigned int> > L(n); Vd w, v; double s = 0, m = 0, c = 0; for (int i = 0; i < n; i++) { unsigned x = i == 0 ? 0 : i == 1 ? F[far] : F[far] / 2; v.push_back(x); w.push_back(sym_real("w")); ASSUME_GE(w[i], 0.0); s = s + w[i]; L[i].ValueSet(x); L[i].WeightSet(w[i]); } ASSUME_GT(s, 0.0); ASSUME(n < 2 || far < 3); MCPdf<unsigned int> p; CHECK(p.ListOfSamplesSet(L), "accepted"); if (n > 1) { ASSUME_EQ(w[1], n == 2 ? w[0] : w[0] + w[2] * 0); } for (int i = 0; i < n; i++) m = m + v[i] * (w[i] / s); if (n == 3) ASSUME_EQ(w[0], w[1]); unsigned e = p.ExpectedValueGet(); CHECK_LE((double)e, m + 0.5, "rounded mean"); CHECK_LE(m - 0.5, (double)e, "rounded mean"); for (int i = 0; i < n; i++) c = c + (v[i] - (double)e) * (v[i] - (double)e) * (w[i] / s); SymmetricMatrix S = p.CovarianceGet(); CHECK(S.rows() == 1, "covariance size"); if (S.rows() == 1) CHECK_EQ(S(1, 1), c, "covariance"); REACH("end"); }
CASE(allocated) { // the number of samples is set first, the samples follow
  int n = sym_int("n", 0, 3), k = sym_int("k", 1, 4), how = sym_int("how", 0, 3), d = sym_int("d", 1, 2); WS s = symWS("", k, d); MCPdf<ColumnVector> p(n, d); if (n && how < 2) { WS t = symWS("t", n, d); p.ListOfSamplesSet(toW(t)); } p.NumSamplesSet(k); CHECK((int)p.NumSamplesGet() == k && (int)p.ListOfSamplesGet().size() == k, "number of samples"); if (how % 2) { CHECK(p.ListOfSamplesUpdate(toW(s)), "accepted"); eqMC(p, s.norm(), "filled", d == 1); } else { CHECK(p.ListOfSamplesUpdate(toU(s)), "accepted"); eqMC(p, unif(s), "filled", d == 1); } REACH("end"); }
// far beyond the fully symbolic sizes: fixed values apart from a few free ones
CASE(big) { int n = sym_int("n", 0, 1) ? 20 : 50, m = sym_int("m", 0, 1) ? 33 : 8, d = sym_int("d", 0, 1) ? 1 : 7; WS s = many(n, d, 0), t = many(m, d, 1), q = many(m, d, 2); MCPdf<ColumnVector> p(n, d); CHECK(p.ListOfSamplesSet(toW(s)), "accepted"); eqMC(p, s.norm(), "weighted list", d == 1); p.ListOfSamplesSet(toW(t)); eqMC(p, t.norm(), "list of another size", d == 1); CHECK(p.ListOfSamplesUpdate(toW(q)), "accepted"); eqMC(p, q.norm(), "update", d == 1); p.ListOfSamplesSet(toU(s)); eqMC(p, unif(s), "unweighted", n == 20); REACH("end"); }
