// Nondeterministic stand-in for the random number generator: every draw is a
// fresh symbolic value constrained only by the contract of rng.h, unless the
// harness has queued the value it wants the next draw to have.
#include "sym.h"
#include "rngctl.h"
static double Q[256]; static int QN = 0, QI = 0; static double H[4096]; static int HN = 0;
void rng_queue(double v) { if (QN < 256) Q[QN++] = v; }
void rng_reset() { QN = QI = HN = 0; }
int rng_count() { return HN; }
double rng_draw(int i) { return H[i]; }
int rng_unused() { return QN - QI; }
static double hist(double v) { if (HN < 4096) H[HN++] = v; return v; }
static double norm01() { if (QI < QN) return hist(Q[QI++]); sym_stub_draw_note("n"); return hist(sym_real("rnorm")); }
static double unif01() { if (QI < QN) return hist(Q[QI++]); sym_stub_draw_note("u"); double u = sym_range("runif", 0.0, 1.0); sym_assume_cmp(2, u, 1.0); return hist(u); }
namespace BFL {
double rnorm(const double &mu, const double &sigma) { return mu + sigma * norm01(); }
double runif() { return unif01(); }
double runif(const double &min, const double &max) { return min + (max - min) * unif01(); }
}
