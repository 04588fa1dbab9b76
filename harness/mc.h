#ifndef MC_H
#define MC_H
#include <pdf/mcpdf.h>
using namespace BFL;
// a weighted sample set of the specification
struct WS { std::vector<Vd> x; Vd w; int size() const { return x.size(); } double total() const { double s = 0; for (double v : w) s = s + v; return s; } WS norm() const { WS r = *this; double s = total(); for (double &v : r.w) v = v / s; return r; } };
static inline WS symWS(const char *nme, int n, int d) { WS s; for (int i = 0; i < n; i++) { s.x.push_back(symV((std::string(nme) + "x").c_str(), d)); double w = sym_real((std::string(nme) + "w").c_str()); ASSUME_GE(w, 0.0); s.w.push_back(w); } ASSUME_GT(s.total(), 0.0); return s; }
static inline std::vector<WeightedSample<ColumnVector> > toW(const WS &s) { std::vector<WeightedSample<ColumnVector> > L; for (int i = 0; i < s.size(); i++) { WeightedSample<ColumnVector> a(s.x[i].size()); a.ValueSet(toC(s.x[i])); a.WeightSet(s.w[i]); L.push_back(a); } return L; }
static inline std::vector<Sample<ColumnVector> > toU(const WS &s) { std::vector<Sample<ColumnVector> > L; for (int i = 0; i < s.size(); i++) { Sample<ColumnVector> a(s.x[i].size()); a.ValueSet(toC(s.x[i])); L.push_back(a); } return L; }
static inline void eqList(const std::vector<WeightedSample<ColumnVector> > &L, const WS &s, const char *w) { CHECK((int)L.size() == s.size(), (std::string(w) + ": number of samples").c_str()); if ((int)L.size() != s.size()) return; for (int i = 0; i < s.size(); i++) { eqC(L[i].ValueGet(), s.x[i], (std::string(w) + ": value").c_str()); CHECK_EQ(L[i].WeightGet(), s.w[i], (std::string(w) + ": weight").c_str()); } }
static inline Vd meanOf(const WS &s) { Vd m(s.x[0].size(), 0.0); for (int i = 0; i < s.size(); i++) for (size_t j = 0; j < m.size(); j++) m[j] = m[j] + s.w[i] * s.x[i][j]; return m; }
static inline Md covOf(const WS &s) { Vd m = meanOf(s); int d = m.size(); Md c(d, Vd(d, 0.0)); for (int i = 0; i < s.size(); i++) for (int a = 0; a < d; a++) for (int b = 0; b < d; b++) c[a][b] = c[a][b] + s.w[i] * (s.x[i][a] - m[a]) * (s.x[i][b] - m[b]); return c; }
// everything observable of a sample-based density equals the normalised set s
static inline void eqMC(MCPdf<ColumnVector> &p, const WS &s, const char *w, bool moments = true) { std::string W = w; CHECK((int)p.NumSamplesGet() == s.size(), (W + ": number of samples").c_str()); if ((int)p.NumSamplesGet() != s.size()) return; eqList(p.ListOfSamplesGet(), s, w); for (int i = 0; i < s.size(); i++) { eqC(p.SampleGet(i).ValueGet(), s.x[i], (W + ": single sample").c_str()); CHECK_EQ(p.SampleGet(i).WeightGet(), s.w[i], (W + ": single weight").c_str()); }
  std::vector<double> c = p.CumulativePDFGet(); CHECK((int)c.size() == s.size() + 1, (W + ": cumulative size").c_str()); double t = 0; for (int i = 0; i <= s.size() && i < (int)c.size(); i++) { CHECK_EQ(c[i], t, (W + ": cumulative").c_str()); if (i < s.size()) t = t + s.w[i]; }
  if (moments) { eqC(p.ExpectedValueGet(), meanOf(s), (W + ": mean").c_str()); eqS(p.CovarianceGet(), covOf(s), (W + ": covariance").c_str()); } }
#endif
