// Discrete distributions stay valid probability distributions over any history of changes.
#include "common.h"
#include <pdf/discretepdf.h>
using namespace BFL;
static Vd symP(const char *nme, int n) { Vd v = symV(nme, n); double s = 0; for (double x : v) { ASSUME_GE(x, 0.0); s = s + x; } ASSUME_GT(s, 0.0); return v; }
static Vd norm(const Vd &v) { double s = 0; for (double x : v) s = s + x; Vd r = v; for (double &x : r) x = x / s; return r; }
static bool setAll(DiscretePdf &d, const Vd &v) { std::vector<Probability> p; for (double x : v) p.push_back(Probability(x)); return d.ProbabilitiesSet(p); }
static void eqD(const DiscretePdf &d, const Vd &p, const char *w) { CHECK(d.NumStatesGet() == p.size(), "number of states"); std::vector<Probability> q = d.ProbabilitiesGet(); CHECK(q.size() == p.size(), "size of the probability list"); double s = 0; for (size_t i = 0; i < p.size(); i++) { CHECK_EQ((double)d.ProbabilityGet(i), p[i], w); CHECK_EQ((double)q[i], p[i], w); CHECK_GE((double)d.ProbabilityGet(i), 0.0, "probabilities are nonnegative"); s = s + (double)d.ProbabilityGet(i); } CHECK_EQ(s, 1.0, "probabilities sum to one"); }
static Vd one(const Vd &p, int k, double a) { Vd r = p; int n = p.size(); if (p[k] == 1.0) { for (int i = 0; i < n; i++) r[i] = (1 - a) / (n - 1.0); } else for (int i = 0; i < n; i++) r[i] = p[i] * (1 - a) / (1 - p[k]); r[k] = a; return r; }
CASE(fresh) { int n = sym_int("n", 1, 8); DiscretePdf d(n); eqD(d, Vd(n, 1.0 / n), "a fresh distribution is uniform"); REACH("end"); }
CASE(set_all) { int n = sym_int("n", 1, 5); Vd v = symP("v", n); DiscretePdf d(n); CHECK(setAll(d, v), "setting all probabilities succeeds"); eqD(d, norm(v), "probabilities are normalised"); REACH("end"); }
CASE(set_one) { int n = sym_int("n", 2, 4); Vd v = symP("v", n); DiscretePdf d(n); setAll(d, v); int k = sym_int("k", 0, 3); ASSUME(k < n); double a = sym_range("a", 0, 1); Vd p = norm(v); CHECK(d.ProbabilitySet(k, a), "setting one probability succeeds"); eqD(d, one(p, k, a), "setting one probability rescales the others"); REACH("end"); }
CASE(set_one_certain) { int n = sym_int("n", 2, 5), k = sym_int("k", 0, 4), j = sym_int("j", 0, 4); ASSUME(k < n && j < n); DiscretePdf d(n); d.ProbabilitySet(k, 1.0); Vd p(n, 0.0); p[k] = 1; eqD(d, p, "a certain state"); double a = sym_range("a", 0, 1); d.ProbabilitySet(j, a); eqD(d, one(p, j, a), "changing a certain distribution"); REACH("end"); }
CASE(single_state) { DiscretePdf d(1); CHECK(d.ProbabilitySet(0, 1.0), "the only state can be set to one"); eqD(d, Vd(1, 1.0), "single state"); double w = sym_real("w"); ASSUME_GT(w, 0.0); CHECK(setAll(d, Vd(1, w)), "single state weight"); eqD(d, Vd(1, 1.0), "single state"); REACH("end"); }
static void hist(int n, int len) { DiscretePdf d(n); Vd p(n, 1.0 / n); for (int s = 0; s < len; s++) { int op = sym_int("op", 0, 2); if (op == 0) { Vd v = symP("v", n); setAll(d, v); p = norm(v); } else if (op == 1) { int k = sym_int("k", 0, n - 1); double a = sym_range("a", 0, 1); d.ProbabilitySet(k, a); p = one(p, k, a); } else { DiscretePdf c(d); d = c; } } eqD(d, p, "probabilities after a history"); REACH("end"); }
CASE(history_2) { hist(2, 3); }
CASE(history_3) { hist(3, 2); }
CASE(most_probable) { int n = sym_int("n", 1, 4); Vd v = symP("v", n); DiscretePdf d(n); setAll(d, v); int m = d.MostProbableStateGet(); CHECK(m >= 0 && m < n, "most probable state exists"); if (m >= 0 && m < n) for (int i = 0; i < n; i++) CHECK_GE(v[m], v[i], "most probable state has the largest probability"); eqD(d, norm(v), "asking changes nothing"); REACH("end"); }
CASE(copies) { int n = sym_int("n", 1, 3); Vd v = symP("v", n), w = symP("w", n); DiscretePdf d(n); setAll(d, v); DiscretePdf c(d); DiscretePdf *k = d.Clone(); DiscretePdf a(sym_int("na", 1, 3)); a = d; setAll(d, w); eqD(d, norm(w), "changed original"); eqD(c, norm(v), "copy unaffected"); eqD(*k, norm(v), "clone unaffected"); eqD(a, norm(v), "assigned unaffected"); setAll(a, w); setAll(c, w); eqD(*k, norm(v), "clone unaffected by others"); eqD(c, norm(w), "copy changed"); a = a; eqD(a, norm(w), "self assignment"); delete k; REACH("end"); }
CASE(zero_mass) { int n = sym_int("n", 1, 4); Vd v = symP("v", n); DiscretePdf d(n); setAll(d, v); CHECK(!setAll(d, Vd(n, 0.0)), "zero total probability is rejected"); REACH("end"); }
CASE_T(history_2_long) { hist(2, 4); }
CASE_T(set_one_5) { int n = 5; Vd v = symP("v", n); DiscretePdf d(n); setAll(d, v); int k = sym_int("k", 0, 4); double a = sym_range("a", 0, 1); Vd p = norm(v); d.ProbabilitySet(k, a); eqD(d, one(p, k, a), "setting one probability rescales the others"); REACH("end"); }
CASE_T(history_4) { hist(4, 2); }
CASE(sizes) { // many states: concrete values, one symbolic
  int n = sym_int("n", 6, 12); Vd v(n); for (int i = 0; i < n; i++) v[i] = 1 + (i * 5) % 7; int k = sym_int("k", 0, 2); k = k == 0 ? 0 : k == 1 ? n / 2 : n - 1; v[n - 2] = sym_real("v"); ASSUME_GE(v[n - 2], 0.0); DiscretePdf d(n); CHECK(setAll(d, v), "accepted"); Vd p = norm(v); eqD(d, p, "probabilities are normalised"); int m = d.MostProbableStateGet(); CHECK(m >= 0 && m < n, "most probable state exists"); if (m >= 0 && m < n) for (int i = 0; i < n; i++) CHECK_GE(v[m], v[i], "most probable state has the largest probability"); double a = sym_range("a", 0, 1); DiscretePdf c(d); d.ProbabilitySet(k, a); eqD(d, one(p, k, a), "setting one probability rescales the others"); eqD(c, p, "copy"); c = d; d.ProbabilitySet(0, 0.5); eqD(c, one(p, k, a), "assigned"); REACH("end"); }
// far beyond the fully symbolic sizes: fixed values apart from a few free ones
CASE(big) { int n = sym_int("n", 0, 3); n = n == 0 ? 17 : n == 1 ? 33 : n == 2 ? 64 : 130; Vd v(n); for (int i = 0; i < n; i++) v[i] = 1 + (i * 5) % 7; int k = sym_int("k", 0, 2); k = k == 0 ? 0 : k == 1 ? n / 2 : n - 1; v[n - 2] = sym_real("v"); ASSUME_GE(v[n - 2], 0.0); DiscretePdf d(n); eqD(d, Vd(n, 1.0 / n), "uniform"); CHECK(setAll(d, v), "accepted"); Vd p = norm(v); eqD(d, p, "probabilities are normalised"); int m = d.MostProbableStateGet(); CHECK(m >= 0 && m < n, "most probable state exists"); if (m >= 0 && m < n) for (int i = 0; i < n; i++) CHECK_GE(v[m], v[i], "most probable state has the largest probability"); double a = sym_range("a", 0, 1); d.ProbabilitySet(k, a); eqD(d, one(p, k, a), "setting one probability rescales the others"); DiscretePdf c(d), e(3); e = d; eqD(c, one(p, k, a), "copy"); eqD(e, one(p, k, a), "assigned"); REACH("end"); }
CASE(big_history) { int n = 5; DiscretePdf d(n); Vd p(n, 1.0 / n); for (int t = 0; t < 40; t++) { int k = (t * 3) % n; double a = ((t * 5) % 16) / 16.0; if (t == 37) a = sym_range("a", 0, 1); d.ProbabilitySet(k, a); p = one(p, k, a); } eqD(d, p, "after many changes"); REACH("end"); }
