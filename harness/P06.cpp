// Samples and weighted samples are faithful value holders.
#include "common.h"
#include <sample/weightedsample.h>
using namespace BFL;
CASE(sample_vector) {
  int n = sym_int("n", 1, 4), m = sym_int("m", 1, 4); Vd a = symV("a", n), b = symV("b", m); double x = sym_real("x");
  Sample<ColumnVector> s(n); CHECK(s.DimensionGet() == (unsigned)n, "dimension as constructed"); s.ValueSet(toC(a)); eqC(s.ValueGet(), a, "value read back"); const Sample<ColumnVector> &k = s; eqC(k.ValueGet(), a, "value read back (const)"); CHECK(s.DimensionGet() == (unsigned)n, "dimension follows value");
  Sample<ColumnVector> c(s), d(m); d = s; eqC(c.ValueGet(), a, "copy"); eqC(d.ValueGet(), a, "assignment"); s.ValueSet(toC(b)); eqC(c.ValueGet(), a, "copy is independent"); eqC(d.ValueGet(), a, "assigned is independent"); eqC(s.ValueGet(), b, "new value of another size"); CHECK(s.DimensionGet() == (unsigned)m, "dimension follows new value");
  s.ValueGet()(m) = x; b[m - 1] = x; eqC(s.ValueGet(), b, "in-place write"); s = s; eqC(s.ValueGet(), b, "self assignment"); s.DimensionSet(n); CHECK(s.DimensionGet() == (unsigned)n, "dimension set"); REACH("end");
}
CASE(weighted_vector) {
  int n = sym_int("n", 1, 4), m = sym_int("m", 1, 3); Vd a = symV("a", n), b = symV("b", m); double w = sym_real("w"), v = sym_real("v"); ASSUME_GE(w, 0.0); ASSUME_GE(v, 0.0);
  WeightedSample<ColumnVector> s(n); s.ValueSet(toC(a)); s.WeightSet(w); eqC(s.ValueGet(), a, "value"); CHECK_EQ(s.WeightGet(), w, "weight"); WeightedSample<ColumnVector> c(s), d; d = s; CHECK_EQ(c.WeightGet(), w, "copied weight"); eqC(c.ValueGet(), a, "copied value"); CHECK_EQ(d.WeightGet(), w, "assigned weight"); eqC(d.ValueGet(), a, "assigned value");
  s.WeightSet(v); CHECK_EQ(s.WeightGet(), v, "new weight"); eqC(s.ValueGet(), a, "weight does not touch value"); s.ValueSet(toC(b)); CHECK_EQ(s.WeightGet(), v, "value does not touch weight"); eqC(s.ValueGet(), b, "new value"); CHECK_EQ(c.WeightGet(), w, "copy keeps weight"); eqC(c.ValueGet(), a, "copy keeps value"); CHECK_EQ(d.WeightGet(), w, "assigned keeps weight"); eqC(d.ValueGet(), a, "assigned keeps value");
  Sample<ColumnVector> p; p.ValueSet(toC(a)); s = p; CHECK_EQ(s.WeightGet(), 1.0, "an unweighted sample gets weight one"); eqC(s.ValueGet(), a, "value from unweighted sample"); Sample<ColumnVector> q = c; eqC(q.ValueGet(), a, "slice keeps value"); REACH("end");
}
CASE(scalar_and_discrete) {
  double x = sym_real("x"), y = sym_real("y"), w = sym_real("w"); ASSUME_GE(w, 0.0); int i = sym_int("i", 0, 5), j = sym_int("j", 0, 5);
  Sample<double> s; s.ValueSet(x); CHECK_EQ(s.ValueGet(), x, "scalar value"); CHECK(s.DimensionGet() == 1, "scalar dimension"); Sample<double> t(s); s.ValueSet(y); CHECK_EQ(t.ValueGet(), x, "scalar copy"); t = s; CHECK_EQ(t.ValueGet(), y, "scalar assign");
  WeightedSample<int> a; a.ValueSet(i); a.WeightSet(w); WeightedSample<int> b(a); a.ValueSet(j); CHECK(b.ValueGet() == i && a.ValueGet() == j, "discrete value"); CHECK_EQ(b.WeightGet(), w, "discrete weight"); CHECK(a.DimensionGet() == 1, "discrete dimension"); Sample<int> d; d.ValueSet(j); b = d; CHECK(b.ValueGet() == j, "discrete from unweighted"); CHECK_EQ(b.WeightGet(), 1.0, "weight one");
  Sample<unsigned int> u; u.ValueSet(i); CHECK(u.ValueGet() == (unsigned)i, "unsigned value"); REACH("end");
}
CASE(containers) {
  int n = sym_int("n", 1, 4); std::vector<WeightedSample<ColumnVector> > L; Md v = symM("v", n, 2); Vd w = symV("w", n); for (int i = 0; i < n; i++) { ASSUME_GE(w[i], 0.0); WeightedSample<ColumnVector> s(2); s.ValueSet(toC(v[i])); s.WeightSet(w[i]); L.push_back(s); }
  std::vector<WeightedSample<ColumnVector> > M = L; L[0].ValueGet()(1) = 99.0; L[0].WeightSet(0.5); for (int i = 0; i < n; i++) { eqC(M[i].ValueGet(), v[i], "list copy values"); CHECK_EQ(M[i].WeightGet(), w[i], "list copy weights"); } M = L; CHECK_EQ(M[0].WeightGet(), 0.5, "list assignment"); for (int i = 1; i < n; i++) { eqC(M[i].ValueGet(), v[i], "list assignment values"); CHECK_EQ(M[i].WeightGet(), w[i], "list assignment weights"); } REACH("end");
}
CASE(sizes) { int n = sym_int("n", 5, 12), m = sym_int("m", 1, 12); Vd a = symV("a", n), b = symV("b", m); double w = sym_real("w"); ASSUME_GE(w, 0.0); WeightedSample<ColumnVector> s(n); s.ValueSet(toC(a)); s.WeightSet(w); WeightedSample<ColumnVector> c(s), d(m); d.ValueSet(toC(b)); d = s; s.ValueSet(toC(b)); eqC(c.ValueGet(), a, "copy"); eqC(d.ValueGet(), a, "assignment"); eqC(s.ValueGet(), b, "new value"); CHECK_EQ(d.WeightGet(), w, "weight"); CHECK(s.DimensionGet() == (unsigned)m && d.DimensionGet() == (unsigned)n, "dimension"); REACH("end"); }
// far beyond the fully symbolic sizes: fixed values apart from a few free ones
CASE(big) { int n = sym_int("n", 0, 1) ? 17 : 40, m = sym_int("m", 0, 1) ? 3 : 33; Vd a = symV("a", n), b = symV("b", m); double w = sym_real("w"); ASSUME_GE(w, 0.0); WeightedSample<ColumnVector> s(n); s.ValueSet(toC(a)); s.WeightSet(w); WeightedSample<ColumnVector> c(s), d(m); d.ValueSet(toC(b)); d = s; s.ValueSet(toC(b)); eqC(c.ValueGet(), a, "copy"); eqC(d.ValueGet(), a, "assigned"); eqC(s.ValueGet(), b, "changed"); CHECK_EQ(c.WeightGet(), w, "weight"); CHECK_EQ(d.WeightGet(), w, "weight"); CHECK_EQ(s.WeightGet(), w, "weight"); Sample<ColumnVector> p = c, q(m); q = p; p.ValueSet(toC(b)); eqC(q.ValueGet(), a, "sample"); eqC(p.ValueGet(), b, "sample"); REACH("end"); }
