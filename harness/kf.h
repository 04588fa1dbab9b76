#ifndef KF_H
#define KF_H
#include "models.h"
#include <filter/extendedkalmanfilter.h>
struct Bel { Vd x; Md P; };
static inline Bel predict(const Bel &b, const Vd &fx, const Md &F, const Md &Q) { Bel r; r.x = fx; r.P = add(mul(mul(F, b.P), tr(F)), Q); return r; }
// z - Z is the innovation, H the Jacobian
static inline Bel correct(const Bel &b, const Vd &z, const Vd &Z, const Md &H, const Md &R, bool assume = true) { Md S = add(mul(mul(H, b.P), tr(H)), R); if (assume) ASSUME_NE(det(S), 0.0); Md K = mul(mul(b.P, tr(H)), inv(S)); Bel r; r.x = add(b.x, mul(K, add(z, Z, -1))); r.P = add(b.P, mul(mul(K, H), b.P), -1); return r; }
static inline double nis(const Bel &b, const Vd &z, const Vd &Z, const Md &H, const Md &R) { Md S = add(mul(mul(H, b.P), tr(H)), R); Vd v = add(z, Z, -1); return dot(v, mul(inv(S), v)); }
static inline void eqBel(Gaussian *g, const Bel &b, const char *w) { eqC(g->ExpectedValueGet(), b.x, (std::string(w) + ": mean").c_str()); eqS(g->CovarianceGet(), b.P, (std::string(w) + ": covariance").c_str()); }
static inline Md band(int r, int c, int s) { Md m(r, Vd(c)); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m[i][j] = ((i * 3 + j * 5 + s) % 7 - 3) * 0.5 + (i == j ? 2 : 0); return m; }
static inline Md spd(int n, int s) { Md m(n, Vd(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m[i][j] = i == j ? n + 1 + (i + s) % 3 : ((i + j + s) % 3 - 1) * 0.5; return m; }
#endif
