#ifndef GAUSS_H
#define GAUSS_H
#include "rngctl.h"
static inline double twopi(int n) { volatile double p = 2.0; double t = p * M_PI, r = 1.0; for (int i = 0; i < n; i++) r = r * t; return r; }
static inline double dens(const Vd &mu, const Md &S, const Vd &x) { Vd d = add(x, mu, -1); Md I = inv(S); double q = dot(d, mul(I, d)); return exp(-0.5 * q) / sqrt(twopi(mu.size()) * det(S)); }
static inline Md conc(int n, int s) { Md r(n, Vd(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] = i == j ? 4 + (i + s) % 3 : ((i + j + s) % 3 - 1) * 0.5; return r; }
// any distribution over vectors with SampleFrom: affine in its standard normal draws with mean mu and covariance S
template <class P> static inline Vd draw1(P &g, const Vd &z, bool &ok) { rng_reset(); for (double x : z) rng_queue(x); BFL::Sample<ColumnVector> s; ok = g.SampleFrom(s, BFL::SampleMthd::DEFAULT, NULL); CHECK(rng_unused() == 0 && rng_count() == (int)z.size(), "one standard draw per dimension"); Vd r; for (unsigned i = 1; i <= s.ValueGet().rows(); i++) r.push_back(s.ValueGet()(i)); CHECK(r.size() == z.size(), "sample dimension"); r.resize(z.size()); rng_reset(); return r; }
template <class P> static inline void sampling(P &g, const Vd &mu, const Md &S) {
  int n = mu.size(); bool ok; Vd z0(n, 0.0); Vd c = draw1(g, z0, ok); CHECK(ok, "sampling succeeds"); for (int i = 0; i < n; i++) CHECK_EQ(c[i], mu[i], "zero draws give the mean");
  Md Am(n, Vd(n)); for (int j = 0; j < n; j++) { Vd e(n, 0.0); e[j] = 1; Vd v = draw1(g, e, ok); for (int i = 0; i < n; i++) Am[i][j] = v[i] - mu[i]; }
  Md Q = mul(Am, tr(Am)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK_EQ(Q[i][j], S[i][j], "covariance of the samples");
  Vd z = symV("z", n); Vd v = draw1(g, z, ok); Vd w = add(mul(Am, z), mu); for (int i = 0; i < n; i++) CHECK_EQ(v[i], w[i], "samples are affine in the draws");
}
// the same for lists: one symbolic block of draws per sample, compared with the single draws
template <class P> static inline void listed(P &g, const Vd &mu, const Md &S, int k) {
  int n = mu.size(); bool ok; sampling(g, mu, S); Md Am(n, Vd(n)); for (int j = 0; j < n; j++) { Vd e(n, 0.0); e[j] = 1; Vd v = draw1(g, e, ok); for (int i = 0; i < n; i++) Am[i][j] = v[i] - mu[i]; }
  std::vector<BFL::Sample<ColumnVector> > L; rng_reset(); ok = g.SampleFrom(L, k, BFL::SampleMthd::DEFAULT, NULL); CHECK(ok && (int)L.size() == k && rng_count() == k * n, "requested samples"); if ((int)L.size() == k && rng_count() == k * n) for (int t = 0; t < k; t++) { Vd z(n); for (int i = 0; i < n; i++) z[i] = rng_draw(t * n + i); eqC(L[t].ValueGet(), add(mul(Am, z), mu), "list sample"); } rng_reset(); }
#endif
