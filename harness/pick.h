#ifndef PICK_H
#define PICK_H
#include "rngctl.h"
// inverse-transform sampling: state k is chosen exactly when u lies in its interval of the cumulative distribution
static inline void checkPick(const Vd &p, double u, int k, const char *w) { int n = p.size(); CHECK(k >= 0 && k < n, (std::string(w) + ": an existing state").c_str()); if (k < 0 || k >= n) return; double lo = 0; for (int i = 0; i < k; i++) lo = lo + p[i]; CHECK_LE(lo, u, w); CHECK_LE(u, lo + p[k], w); CHECK_GT(p[k], 0.0, (std::string(w) + ": never a state of probability zero").c_str()); }
// the ordered uniform numbers of Ripley's algorithm from n independent draws
static inline Vd ordered(const Vd &d) { int n = d.size(); Vd u = d; if (!n) return u; u[n - 1] = pow(u[n - 1], 1.0 / n); for (int i = n - 2; i >= 0; i--) u[i] = pow(u[i], 1.0 / (i + 1)) * u[i + 1]; return u; }
static inline Vd symU(const char *nme, int n) { Vd v = symV(nme, n); for (double x : v) { ASSUME_GE(x, 0.0); ASSUME_LT(x, 1.0); } return v; }
#endif
