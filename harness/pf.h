#ifndef PF_H
#define PF_H
#include "models.h"
#include "mc.h"
#include "pick.h"
#include <wrappers/rng/rng.h>
#include <filter/bootstrapfilter.h>
// user-written conditional density over (x [,u]): sample = a x + b u + g * draw (every dimension one draw), density (c + y_1 - k x_1 - e u_1)^2
struct Par { double a, b, g, c, k, e; };
static inline Par symPar(const char *n, bool in) { Vd v = symV(n, 6); Par p = {v[0], in ? v[1] : 0.0, v[2], v[3], v[4], in ? v[5] : 0.0}; return p; }
template <class V> struct UPdf : public ConditionalPdf<V, ColumnVector> { Par p; bool in; UPdf(const Par &q, int dim, bool i) : ConditionalPdf<V, ColumnVector>(dim, i ? 2 : 1), p(q), in(i) {}
  double first(const ColumnVector &v) const { return v(1); } double first(int v) const { return v; }
  Probability ProbabilityGet(const V &y) const { double d = p.c + first(y) - p.k * this->ConditionalArgumentGet(0)(1); if (in) d = d - p.e * this->ConditionalArgumentGet(1)(1); return Probability(d * d); } };
struct UProp : public UPdf<ColumnVector> { UProp(const Par &q, int dim, bool i) : UPdf<ColumnVector>(q, dim, i) {}
  bool SampleFrom(Sample<ColumnVector> &s, const SampleMthd m = SampleMthd::DEFAULT, void *a = NULL) const { ColumnVector x = ConditionalArgumentGet(0), y(x.rows()); for (unsigned i = 1; i <= x.rows(); i++) { y(i) = p.a * x(i) + p.g * rnorm(0.0, 1.0); if (in) y(i) = y(i) + p.b * ConditionalArgumentGet(1)(1); } s.ValueSet(y); return true; } };
static inline Vd upMove(const Par &p, const Vd &x, double u, const Vd &z) { Vd y(x.size()); for (size_t i = 0; i < x.size(); i++) y[i] = p.a * x[i] + p.g * z[i] + p.b * u; return y; }
static inline double upDens(const Par &p, double y, double x, double u) { double d = p.c + y - p.k * x - p.e * u; return d * d; }
// densities as free non-negative values per (point, state, input): points carry a concrete tag in their last coordinate
#include <map>
struct Tags { std::map<std::vector<int>, double> t; const char *name; bool fixed; int fy, fx; Tags(const char *n) : name(n), fixed(false), fy(-1), fx(-1) {} void fix(int y, int x) { fixed = true; fy = y; fx = x; } double at(int y, int x, int u) { std::vector<int> k; k.push_back(y); k.push_back(x); k.push_back(u); std::map<std::vector<int>, double>::iterator i = t.find(k); if (i != t.end()) return i->second; if (fixed && !(y == fy && x == fx)) return 0.25 * (1 + (((y % 1009) * 3 + (x % 1009) * 5 + u) % 7)); double v = sym_real(name); ASSUME_GE(v, 0.0); t[k] = v; return v; } };
struct TPdf : public ConditionalPdf<ColumnVector, ColumnVector> { Tags *t; bool in; int add; int merge; TPdf(Tags *a, int dim, bool i, int ad = 0) : ConditionalPdf<ColumnVector, ColumnVector>(dim, i ? 2 : 1), t(a), in(i), add(ad), merge(0) {}
  static int tag(const ColumnVector &v) { return (int)v(v.rows()); }
  Probability ProbabilityGet(const ColumnVector &y) const { return Probability(t->at(tag(y), tag(ConditionalArgumentGet(0)), in ? tag(ConditionalArgumentGet(1)) : 0)); }
  bool SampleFrom(Sample<ColumnVector> &s, const SampleMthd m = SampleMthd::DEFAULT, void *a = NULL) const { ColumnVector x = ConditionalArgumentGet(0), y(2); y(1) = rnorm(0.0, 1.0); y(2) = (merge ? merge : x(2)) + add + (in ? 1000 * tag(ConditionalArgumentGet(1)) : 0); s.ValueSet(y); return true; } };
static inline WS tagWS(int n) { WS s = symWS("", n, 1); for (int i = 0; i < n; i++) s.x[i].push_back(10.0 + i); return s; }
// larger sets: concrete particles, one free
static inline WS bigWS(int n, int k) { WS s; for (int i = 0; i < n; i++) { s.x.push_back(Vd(1, 0.5 * i - 1.0)); s.x[i].push_back(10.0 + i); s.w.push_back(1.0 + i % 3); } if (k >= 0 && k < n) { s.x[k][0] = sym_real("x"); s.w[k] = sym_real("w"); ASSUME_GT(s.w[k], 0.0); } return s; }
static inline void loadMC(MCPdf<ColumnVector> &p, const WS &s) { p.ListOfSamplesSet(toW(s)); }
static inline void queue(const Vd &z) { for (double a : z) rng_queue(a); }
#endif
