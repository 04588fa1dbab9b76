#ifndef MODELS_H
#define MODELS_H
#include <pdf/linearanalyticconditionalgaussian.h>
#include <pdf/analyticconditionalgaussian_additivenoise.h>
#include <model/linearanalyticsystemmodel_gaussianuncertainty.h>
#include <model/linearanalyticmeasurementmodel_gaussianuncertainty.h>
#include <model/analyticsystemmodel_gaussianuncertainty.h>
#include <model/analyticmeasurementmodel_gaussianuncertainty.h>
using namespace BFL;
// a user-written nonlinear model y_i = sum_j A_ij x_j + b_i x_k^2 + c_i x_1 x_n (+ d_i u_1) + noise, k = i mod n
struct QForm { Md A; Vd b, c, d; Vd val(const Vd &x, const Vd &u) const { int n = x.size(); Vd r = mul(A, x); for (size_t i = 0; i < r.size(); i++) { int k = i % n; r[i] = r[i] + b[i] * x[k] * x[k] + c[i] * x[0] * x[n - 1]; if (d.size() && u.size()) r[i] = r[i] + d[i] * u[0]; } return r; }
  Md jac(const Vd &x) const { int n = x.size(); Md J = A; for (size_t i = 0; i < A.size(); i++) { int k = i % n; J[i][k] = J[i][k] + 2.0 * b[i] * x[k]; J[i][0] = J[i][0] + c[i] * x[n - 1]; J[i][n - 1] = J[i][n - 1] + c[i] * x[0]; } return J; } };
static inline QForm symQ(const char *p, int m, int n, bool in = false) { QForm q; q.A = symM((std::string(p) + "A").c_str(), m, n); q.b = symV((std::string(p) + "b").c_str(), m); q.c = symV((std::string(p) + "c").c_str(), m); if (in) q.d = symV((std::string(p) + "d").c_str(), m); return q; }
struct QPdf : public AnalyticConditionalGaussianAdditiveNoise { QForm f; QPdf(const QForm &q, const Gaussian &g) : AnalyticConditionalGaussianAdditiveNoise(g, q.d.size() ? 2 : 1), f(q) {}
  Vd arg(int i) const { ColumnVector c = ConditionalArgumentGet(i); Vd r; for (unsigned k = 1; k <= c.rows(); k++) r.push_back(c(k)); return r; }
  ColumnVector ExpectedValueGet() const { return toC(f.val(arg(0), f.d.size() ? arg(1) : Vd())) + AdditiveNoiseMuGet(); }
  Matrix dfGet(unsigned int i) const { if (i == 0) return toM(f.jac(arg(0))); Md J; for (double x : f.d) J.push_back(Vd(1, x)); return toM(J); } };
// the same with noise whose first variance grows with the state (and input): N_11 + k (x_1 + u_1)^2
static inline Md sCov(Md N, double k, const Vd &x, const Vd &u) { double t = x[0]; if (u.size()) t = t + u[0]; N[0][0] = N[0][0] + k * t * t; return N; }
struct SPdf : public QPdf { double k; SPdf(const QForm &q, const Gaussian &g, double kk) : QPdf(q, g), k(kk) {}
  SymmetricMatrix CovarianceGet() const { SymmetricMatrix s = AdditiveNoiseSigmaGet(); double t = ConditionalArgumentGet(0)(1); if (f.d.size()) t = t + ConditionalArgumentGet(1)(1); s(1, 1) = s(1, 1) + k * t * t; return s; } };
// linear pdf of dimension r in x (dimension n) and optionally u (dimension k)
static inline LinearAnalyticConditionalGaussian *linPdf(const Md &A, const Md *B, const Vd &mu, const Md &S) { Gaussian g(toC(mu), toS(S)); if (!B) return new LinearAnalyticConditionalGaussian(toM(A), g); std::vector<Matrix> v; v.push_back(toM(A)); v.push_back(toM(*B)); return new LinearAnalyticConditionalGaussian(v, g); }
#endif
