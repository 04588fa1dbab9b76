// Discrete conditional distributions: table lookup for every argument combination, and sampling given the arguments.
#include "common.h"
#include <pdf/discreteconditionalpdf.h>
#include "pick.h"
using namespace BFL;
struct T { int n, na; std::vector<int> dims; std::vector<Vd> p; // p[combination][state]
  int combos() const { int c = 1; for (int d : dims) c *= d; return c; }
  std::vector<int> args(int c) const { std::vector<int> a; for (int d : dims) { a.push_back(c % d); c /= d; } return a; } };
static T table(DiscreteConditionalPdf *&q, int n, std::vector<int> dims, bool prob, int rev) {
  T t; t.n = n; t.dims = dims; t.na = dims.size(); int D[8]; for (size_t i = 0; i < dims.size(); i++) D[i] = dims[i]; q = new DiscreteConditionalPdf(n, dims.size(), D); for (size_t i = 0; i < dims.size(); i++) D[i] = 77;
  int C = t.combos(); for (int c = 0; c < C; c++) { Vd v = symV("p", n); double s = 0; for (double x : v) { ASSUME_GE(x, 0.0); s = s + x; } if (prob) { ASSUME_GT(s, 0.0); } t.p.push_back(v); }
  for (int k = 0; k < C; k++) { int c = rev ? C - 1 - k : k; for (int i = 0; i < n; i++) q->ProbabilitySet(t.p[c][i], i, t.args(c)); } return t; }
static void look(DiscreteConditionalPdf &q, const T &t, const char *w) { for (int c = 0; c < t.combos(); c++) { std::vector<int> a = t.args(c); q.ConditionalArgumentsSet(a); for (int i = 0; i < t.n; i++) CHECK_EQ((double)q.ProbabilityGet(i), t.p[c][i], w); for (int k = 0; k < t.na; k++) CHECK(q.ConditionalArgumentGet(k) == a[k], "conditional arguments read back"); CHECK(q.ConditionalArgumentsGet() == a, "all conditional arguments read back"); } }
static std::vector<int> shape(int s) { static const int S[8][3] = {{1, 0, 0}, {2, 0, 0}, {3, 0, 0}, {2, 3, 0}, {3, 2, 0}, {2, 2, 0}, {2, 3, 2}, {1, 4, 0}}; std::vector<int> d; for (int i = 0; i < 3 && S[s][i]; i++) d.push_back(S[s][i]); return d; }
CASE(lookup) { int n = sym_int("n", 1, 4), s = sym_int("shape", 0, 7); DiscreteConditionalPdf *q; T t = table(q, n, shape(s), false, sym_int("rev", 0, 1)); CHECK(q->NumStatesGet() == (unsigned)n && q->NumConditionalArgumentsGet() == (unsigned)t.na, "sizes"); look(*q, t, "table entry"); delete q; REACH("end"); }
CASE(overwrite) { int s = sym_int("shape", 0, 6), n = sym_int("n", 2, 3); DiscreteConditionalPdf *q; T t = table(q, n, shape(s), false, 0); int c = sym_int("c", 0, 11), i = sym_int("i", 0, 2); ASSUME(c < t.combos() && i < n); double x = sym_real("x"); ASSUME_GE(x, 0.0); q->ProbabilitySet(x, i, t.args(c)); t.p[c][i] = x; look(*q, t, "one entry changed"); delete q; REACH("end"); }
CASE(one_argument_at_a_time) { DiscreteConditionalPdf *q; T t = table(q, 2, shape(6), false, 0); std::vector<int> a = t.args(sym_int("c0", 0, 11)); q->ConditionalArgumentsSet(a); for (int k = 0; k < 3; k++) { int w = sym_int("arg", 0, 2), v = sym_int("val", 0, 2); ASSUME(v < t.dims[w]); q->ConditionalArgumentSet(w, v); a[w] = v; if (k == 1) q->ProbabilityGet(0); } int c = a[0] + 2 * (a[1] + 3 * a[2]); for (int i = 0; i < 2; i++) CHECK_EQ((double)q->ProbabilityGet(i), t.p[c][i], "table entry after changing single arguments"); delete q; REACH("end"); }
CASE(sampling) { int n = sym_int("n", 1, 4), s = sym_int("shape", 0, 3); DiscreteConditionalPdf *q; T t = table(q, n, shape(s), true, 0); int c = sym_int("c", 0, 5); ASSUME(c < t.combos()); q->ConditionalArgumentsSet(t.args(c)); Vd p = t.p[c]; double sum = 0; for (double x : p) sum = sum + x; for (double &x : p) x = x / sum; Sample<int> o; rng_reset(); CHECK(q->SampleFrom(o, SampleMthd::DEFAULT, NULL), "sampling succeeds"); CHECK(rng_count() == 1, "one draw"); if (rng_count() == 1) checkPick(p, rng_draw(0), o.ValueGet(), "sampled state"); look(*q, t, "sampling leaves the table"); delete q; REACH("end"); }
CASE(sampling_switch) { // arguments change between draws
  DiscreteConditionalPdf *q; T t = table(q, 2, shape(1), true, 0); for (int k = 0; k < 3; k++) { int c = sym_int("c", 0, 1); q->ConditionalArgumentSet(0, c); Vd p = t.p[c]; double sum = p[0] + p[1]; p[0] = p[0] / sum; p[1] = p[1] / sum; if (sym_int("list", 0, 1)) { std::vector<Sample<int> > L(3); rng_reset(); CHECK(q->SampleFrom(L, 2, SampleMthd::DEFAULT, NULL), "sampling succeeds"); CHECK(L.size() == 2 && rng_count() == 2, "requested number"); if (L.size() == 2 && rng_count() == 2) for (int i = 0; i < 2; i++) checkPick(p, rng_draw(i), L[i].ValueGet(), "sampled state in a list"); continue; } Sample<int> o; rng_reset(); q->SampleFrom(o, SampleMthd::DEFAULT, NULL); if (rng_count() == 1) checkPick(p, rng_draw(0), o.ValueGet(), "sampled state"); else CHECK(false, "one draw"); } delete q; REACH("end"); }
CASE(sampling_list) { int k = sym_int("k", 1, 3); DiscreteConditionalPdf *q; T t = table(q, 2, shape(1), true, 0); int c = sym_int("c", 0, 1); q->ConditionalArgumentSet(0, c); Vd p = t.p[c]; double sum = p[0] + p[1]; p[0] = p[0] / sum; p[1] = p[1] / sum; std::vector<Sample<int> > L(sym_int("old", 0, 2)); rng_reset(); CHECK(q->SampleFrom(L, k, SampleMthd::DEFAULT, NULL), "sampling succeeds"); CHECK((int)L.size() == k && rng_count() == k, "requested number"); if ((int)L.size() == k && rng_count() == k) for (int i = 0; i < k; i++) checkPick(p, rng_draw(i), L[i].ValueGet(), "sampled state in a list"); delete q; REACH("end"); }
CASE(copies) { int s = sym_int("shape", 0, 3); DiscreteConditionalPdf *q; T t = table(q, 2, shape(s), false, 0); T u = t; q->ConditionalArgumentsSet(t.args(t.combos() - 1)); DiscreteConditionalPdf c(*q); DiscreteConditionalPdf *k = q->Clone(); for (int i = 0; i < 2; i++) { CHECK_EQ((double)c.ProbabilityGet(i), t.p[t.combos() - 1][i], "copy keeps arguments"); CHECK_EQ((double)k->ProbabilityGet(i), t.p[t.combos() - 1][i], "clone keeps arguments"); } double x = sym_real("x"); ASSUME_GE(x, 0.0); q->ProbabilitySet(x, 1, t.args(0)); u.p[0][1] = x; look(*q, u, "changed original"); look(c, t, "copy unaffected"); look(*k, t, "clone unaffected"); c.ProbabilitySet(x, 0, t.args(0)); look(*k, t, "clone unaffected by copy"); look(*q, u, "original unaffected by copy"); delete k; delete q; REACH("end"); }
CASE(assignment) { int s = sym_int("shape", 0, 3), s2 = sym_int("shape2", 0, 3); DiscreteConditionalPdf *q, *r; T t = table(q, 2, shape(s), false, 0), u = table(r, sym_int("n2", 1, 3), shape(s2), false, 0); *r = *q; double x = sym_real("x"); ASSUME_GE(x, 0.0); look(*r, t, "assigned"); T t2 = t; q->ProbabilitySet(x, 1, t.args(0)); t2.p[0][1] = x; look(*r, t, "assigned is independent"); look(*q, t2, "source"); CHECK(r->NumStatesGet() == 2, "states"); delete q; look(*r, t, "assigned outlives source"); delete r; REACH("end"); }
CASE_T(sampling_more) { int n = sym_int("n", 5, 6); DiscreteConditionalPdf *q; T t = table(q, n, shape(4), true, 0); int c = sym_int("c", 0, 5); q->ConditionalArgumentsSet(t.args(c)); Vd p = t.p[c]; double sum = 0; for (double x : p) sum = sum + x; for (double &x : p) x = x / sum; Sample<int> o; rng_reset(); q->SampleFrom(o, SampleMthd::DEFAULT, NULL); checkPick(p, rng_draw(0), o.ValueGet(), "sampled state"); delete q; REACH("end"); }
CASE(sizes) { static const int S[5][5] = {{4, 5, 0, 0, 0}, {2, 2, 3, 2, 0}, {3, 1, 2, 4, 0}, {7, 0, 0, 0, 0}, {2, 2, 2, 2, 2}}; int s = sym_int("shape", 0, 4), n = sym_int("n", 2, 6); std::vector<int> d; for (int i = 0; i < 5 && S[s][i]; i++) d.push_back(S[s][i]); DiscreteConditionalPdf *q; T t = table(q, n, d, false, sym_int("rev", 0, 1)); look(*q, t, "table entry"); DiscreteConditionalPdf c(*q); q->ProbabilitySet(0.5, n - 1, t.args(1)); look(c, t, "copy unaffected"); delete q; REACH("end"); }
CASE(sampling_sizes) { int n = sym_int("n", 5, 12), c = sym_int("c", 0, 3); int D[2] = {2, 2}; DiscreteConditionalPdf q(n, 2, D); std::vector<int> a(2); Vd p(n); double sum = 0; for (int k = 0; k < 4; k++) { a[0] = k % 2; a[1] = k / 2; for (int i = 0; i < n; i++) { double v = 1 + (i * 3 + k * 5) % 7; q.ProbabilitySet(v, i, a); if (k == c) { p[i] = v; sum += v; } } } for (double &x : p) x = x / sum; q.ConditionalArgumentSet(0, c % 2); q.ConditionalArgumentSet(1, c / 2); Sample<int> o; rng_reset(); CHECK(q.SampleFrom(o, SampleMthd::DEFAULT, NULL), "sampling succeeds"); if (rng_count() == 1) checkPick(p, rng_draw(0), o.ValueGet(), "sampled state"); else CHECK(false, "one draw"); REACH("end"); }
// far beyond the fully symbolic sizes: fixed values apart from a few free ones
CASE(big) { int n = sym_int("n", 0, 1) ? 33 : 70, c = sym_int("c", 0, 1) ? 0 : 20; int D[2] = {3, 7}; DiscreteConditionalPdf q(n, 2, D); std::vector<int> a(2); Vd p(n); double sum = 0; for (int k = 0; k < 21; k++) { a[0] = k % 3; a[1] = k / 3; for (int i = 0; i < n; i++) { double v = 1 + (i * 3 + k * 5) % 7; q.ProbabilitySet(v, i, a); if (k == c) { p[i] = v; sum += v; } } } a[0] = 1; a[1] = 4; double x = sym_real("x"); ASSUME_GE(x, 0.0); q.ProbabilitySet(x, n - 2, a); q.ConditionalArgumentsSet(a); for (int i = 0; i < n; i++) CHECK_EQ((double)q.ProbabilityGet(i), i == n - 2 ? x : 1.0 + (i * 3 + 13 * 5) % 7, "table entry"); for (double &y : p) y = y / sum; q.ConditionalArgumentSet(0, c % 3); q.ConditionalArgumentSet(1, c / 3); Sample<int> o; rng_reset(); CHECK(q.SampleFrom(o, SampleMthd::DEFAULT, NULL), "sampling succeeds"); if (rng_count() == 1) checkPick(p, rng_draw(0), o.ValueGet(), "sampled state"); else CHECK(false, "one draw"); REACH("end"); }
// copied and assigned conditional distributions look up and sample like their source, which may change afterwards
CASE(assigned) { int s = sym_int("shape", 0, 2), r = sym_int("other", 0, 2), how = sym_int("how", 0, 2), n = 2; DiscreteConditionalPdf *q, *o = 0; T t = table(q, n, shape(s), true, 0); int cc = sym_int("c", 0, 2); ASSUME(cc < t.combos()); if (how == 0) { std::vector<int> d = shape(r); int D[8]; for (size_t i = 0; i < d.size(); i++) D[i] = d[i]; o = new DiscreteConditionalPdf(3, d.size(), D); *o = *q; } else if (how == 1) o = new DiscreteConditionalPdf(*q); else o = q->Clone(); if (sym_int("dead", 0, 1)) { delete q; q = 0; } else q->ProbabilitySet(0.5, 0, t.args(0)); CHECK((int)o->NumStatesGet() == n && (int)o->NumConditionalArgumentsGet() == t.na, "shape"); look(*o, t, "assigned table"); o->ConditionalArgumentsSet(t.args(cc)); Vd p = t.p[cc]; double sum = p[0] + p[1]; for (double &x : p) x = x / sum; Sample<int> v; rng_reset(); CHECK(o->SampleFrom(v, SampleMthd::DEFAULT, NULL), "sampling succeeds"); CHECK(rng_count() == 1, "one draw"); if (rng_count() == 1) checkPick(p, rng_draw(0), v.ValueGet(), "sampled state"); delete o; delete q; REACH("end"); }
