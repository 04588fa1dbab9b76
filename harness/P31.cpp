// Particle smoother: w_i' is proportional to w_i * sum_j W_j p(x_j|x_i) / sum_k w_k p(x_j|x_k), on the filtered particles.
#include "common.h"
#include "pf.h"
#include <smoother/particlesmoother.h>
typedef MCPdf<ColumnVector> MC; typedef ParticleSmoother<ColumnVector> PS;
static WS retag(WS s, int t) { for (size_t i = 0; i < s.x.size(); i++) s.x[i][1] = t + (double)i; return s; }
static WS smooth(const WS &s, const WS &f, Tags &T, int u) { size_t M = s.x.size(), N = f.x.size(); WS r = f; for (size_t i = 0; i < N; i++) r.w[i] = 0.0; for (size_t j = 0; j < M; j++) { double g = 0; for (size_t k = 0; k < N; k++) { g = g + f.w[k] * T.at((int)s.x[j][1], (int)f.x[k][1], u); } ASSUME_GT(g, 0.0); for (size_t i = 0; i < N; i++) r.w[i] = r.w[i] + f.w[i] * s.w[j] * T.at((int)s.x[j][1], (int)f.x[i][1], u) / g; } return r; }
static void step(int M, int N, bool in) { WS s = retag(tagWS(M), 20), f = retag(tagWS(N), 30); MC ps(M, 2), pf(N, 2); loadMC(ps, s); loadMC(pf, f); s = s.norm(); f = f.norm(); Tags T("p"); TPdf p(&T, 2, in, 100); SystemModel<ColumnVector> sm(&p); { PS o(&ps); eqMC(*(MC *)o.PostGet(), s, "starts from the prior", false); WS e = smooth(s, f, T, in ? 7 : 0); bool ok = in ? o.Update(&sm, toC(Vd(1, 7.0)), &pf) : o.Update(&sm, &pf); CHECK(ok, "update reports success"); eqMC(*(MC *)o.PostGet(), e.norm(), "smoothed particles", false); eqMC(pf, f, "filtered particles untouched", false); eqMC(ps, s, "prior untouched", false); } eqMC(pf, f, "filtered particles survive", false); eqMC(ps, s, "prior survives", false); REACH("end"); }
CASE(square) { int n = sym_int("n", 1, 2), in = sym_int("in", 0, 1); step(n, n, in); }
CASE(more_filtered) { int m = sym_int("m", 1, 2), d = sym_int("d", 1, 1), in = sym_int("in", 0, 1); step(m, m + d, in); }
CASE(more_smoothed) { int m = sym_int("m", 1, 2), d = sym_int("d", 1, 1), in = sym_int("in", 0, 1); step(m + d, m, in); }
CASE(sequence) { int M = sym_int("M", 1, 2), N = sym_int("N", 1, 2); WS s = retag(tagWS(M), 20), f = retag(tagWS(N), 30), g = retag(tagWS(1), 40); MC ps(M, 2), pf(N, 2), pg(1, 2); loadMC(ps, s); loadMC(pf, f); loadMC(pg, g); s = s.norm(); f = f.norm(); g = g.norm(); Tags T("p"), U("q"); TPdf p(&T, 2, false, 100), q(&U, 2, false, 100); SystemModel<ColumnVector> sp(&p), sq(&q); PS o(&ps); s = smooth(s, f, T, 0).norm(); o.Update(&sp, &pf); s = smooth(s, g, U, 0).norm(); o.Update(&sq, &pg); eqMC(*(MC *)o.PostGet(), s, "two steps back", false); REACH("end"); }
CASE(mean) { int in = sym_int("in", 0, 1); WS s = retag(tagWS(2), 20), f = retag(tagWS(2), 30); MC ps(2, 2), pf(2, 2); loadMC(ps, s); loadMC(pf, f); s = s.norm(); f = f.norm(); Tags T("p"); TPdf p(&T, 2, in, 100); SystemModel<ColumnVector> sm(&p); PS o(&ps); WS e = smooth(s, f, T, in ? 7 : 0).norm(); if (in) o.Update(&sm, toC(Vd(1, 7.0)), &pf); else o.Update(&sm, &pf); ColumnVector x = o.PostGet()->ExpectedValueGet(); CHECK_EQ(x(1), e.w[0] * e.x[0][0] + e.w[1] * e.x[1][0], "mean of the smoothed particles"); REACH("end"); }
CASE(repeated) { // particles that occur more than once, as after resampling, each keep their own weight
  int which = sym_int("which", 0, 2), in = sym_int("in", 0, 1); WS s = retag(tagWS(2), 20), f = retag(tagWS(2), 30); if (which != 1) s.x[1] = s.x[0]; if (which != 0) f.x[1] = f.x[0]; MC ps(2, 2), pf(2, 2); loadMC(ps, s); loadMC(pf, f); s = s.norm(); f = f.norm(); Tags T("p"); TPdf p(&T, 2, in, 100); SystemModel<ColumnVector> sm(&p); PS o(&ps); WS e = smooth(s, f, T, in ? 7 : 0).norm(); if (in) o.Update(&sm, toC(Vd(1, 7.0)), &pf); else o.Update(&sm, &pf); eqMC(*(MC *)o.PostGet(), e, "smoothed particles", false); REACH("end"); }
CASE(zero_weights) { // filtered or smoothed particles without weight
  int which = sym_int("which", 0, 1), k = sym_int("k", 0, 1); WS s = retag(tagWS(2), 20), f = retag(tagWS(2), 30); (which ? s : f).w[k] = 0.0; ASSUME_GT((which ? s : f).total(), 0.0); MC ps(2, 2), pf(2, 2); loadMC(ps, s); loadMC(pf, f); s = s.norm(); f = f.norm(); Tags T("p"); TPdf p(&T, 2, false, 100); SystemModel<ColumnVector> sm(&p); PS o(&ps); WS e = smooth(s, f, T, 0).norm(); o.Update(&sm, &pf); eqMC(*(MC *)o.PostGet(), e, "smoothed particles", false); REACH("end"); }
CASE(impossible) { // a smoothed particle that no filtered particle can reach contributes nothing
  WS s = retag(tagWS(2), 20), f = retag(tagWS(2), 30); MC ps(2, 2), pf(2, 2); loadMC(ps, s); loadMC(pf, f); s = s.norm(); f = f.norm(); int dead = sym_int("dead", 0, 1); Tags T("p"); for (int i = 0; i < 2; i++) T.t[std::vector<int>{20 + dead, 30 + i, 0}] = 0.0; TPdf p(&T, 2, false, 100); SystemModel<ColumnVector> sm(&p); PS o(&ps); int l = 1 - dead; WS e = f; double g = f.w[0] * T.at(20 + l, 30, 0) + f.w[1] * T.at(20 + l, 31, 0); ASSUME_GT(g, 0.0); ASSUME_GT(s.w[l], 0.0); for (int i = 0; i < 2; i++) e.w[i] = f.w[i] * T.at(20 + l, 30 + i, 0); o.Update(&sm, &pf); eqMC(*(MC *)o.PostGet(), e.norm(), "smoothed particles", false); REACH("end"); }
CASE_T(square_3) { int in = sym_int("in", 0, 1); step(3, 3, in); }
CASE_T(uneven_4) { if (sym_int("which", 0, 1)) step(1, 4, false); else step(4, 1, false); }
// larger sets: concrete particles and transition densities, one of each free
CASE(sizes) { int which = sym_int("sizes", 0, 3), fr = sym_int("free", 0, 2), M = which == 0 ? 5 : which == 1 ? 8 : which == 2 ? 4 : 7, N = which == 0 ? 6 : which == 1 ? 4 : which == 2 ? 9 : 7; WS s = retag(bigWS(M, fr == 0 ? M - 1 : -1), 20), f = retag(bigWS(N, fr == 1 ? 1 : -1), 30); MC ps(M, 2), pf(N, 2); loadMC(ps, s); loadMC(pf, f); s = s.norm(); f = f.norm(); Tags T("p"); T.fix(fr == 2 ? 20 + M - 2 : -1, 30 + N - 1); TPdf p(&T, 2, false, 100); SystemModel<ColumnVector> sm(&p); PS o(&ps); WS e = smooth(s, f, T, 0); CHECK(o.Update(&sm, &pf), "update reports success"); eqMC(*(MC *)o.PostGet(), e.norm(), "smoothed particles", false); eqMC(pf, f, "filtered particles untouched", false); eqMC(ps, s, "prior untouched", false); REACH("end"); }
CASE(many_steps) { int N = sym_int("N", 2, 3); WS s = retag(bigWS(N, 0), 20); MC ps(N, 2); loadMC(ps, s); s = s.norm(); PS o(&ps); for (int t = 0; t < 5; t++) { int K = 1 + (t + N) % 4; WS f = retag(bigWS(K, -1), 30 + 10 * t); MC pf(K, 2); loadMC(pf, f); f = f.norm(); Tags T("p"); T.fix(-1, -1); TPdf p(&T, 2, false, 100); SystemModel<ColumnVector> sm(&p); s = smooth(s, f, T, 0).norm(); o.Update(&sm, &pf); } eqMC(*(MC *)o.PostGet(), s, "long backward sweep", false); REACH("end"); }
// far beyond the fully symbolic sizes: fixed values apart from a few free ones
CASE(big) { int M = sym_int("M", 0, 1) ? 18 : 33, N = M == 18 ? 36 : 17; WS s = retag(bigWS(M, M - 1), 20), f = retag(bigWS(N, -1), 300); MC ps(M, 2), pf(N, 2); loadMC(ps, s); loadMC(pf, f); s = s.norm(); f = f.norm(); Tags T("p"); T.fix(-1, -1); TPdf p(&T, 2, false, 100); SystemModel<ColumnVector> sm(&p); PS o(&ps); WS e = smooth(s, f, T, 0); CHECK(o.Update(&sm, &pf), "update reports success"); eqMC(*(MC *)o.PostGet(), e.norm(), "smoothed particles", false); eqMC(pf, f, "filtered particles untouched", false); REACH("end"); }
