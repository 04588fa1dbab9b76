// Singular value decomposition and pseudo-inverse.
#include "common.h"
static void near(double a, double b, const char *w) { CHECK_LE(a, b + 1e-6, w); CHECK_LE(b, a + 1e-6, w); }
static void eq(double a, double b, bool exact, const char *w) { if (exact) CHECK_EQ(a, b, w); else near(a, b, w); }
static Md ofM(const Matrix &m) { Md r(m.rows(), Vd(m.columns())); for (unsigned i = 0; i < m.rows(); i++) for (unsigned j = 0; j < m.columns(); j++) r[i][j] = m(i + 1, j + 1); return r; }
static void eqMd(const Md &a, const Md &b, bool exact, const char *w) { for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) eq(a[i][j], b[i][j], exact, w); }
// U diag(w) V' = A, w >= 0, V orthogonal, the columns of U that carry weight orthonormal
static Vd svd(const Md &a, bool exact) {
  int m = a.size(), n = a[0].size(); const Matrix A = toM(a); ColumnVector w; Matrix U, V; bool ok = A.SVD(w, U, V); CHECK(ok, "decomposition succeeds"); CHECK((int)w.rows() == n && (int)U.rows() == m && (int)U.columns() == n && (int)V.rows() == n && (int)V.columns() == n, "sizes of the factors"); if (!ok || (int)w.rows() != n || (int)U.columns() != n) return Vd();
  Md u = ofM(U), v = ofM(V), uw = u, utu = mul(tr(u), u), vtv = mul(tr(v), v); Vd s(n); for (int j = 0; j < n; j++) { s[j] = w(j + 1); CHECK_GE(s[j], 0.0, "singular values are not negative"); for (int i = 0; i < m; i++) uw[i][j] = u[i][j] * s[j]; }
  eqMd(mul(uw, tr(v)), a, exact, "the factors multiply back to the matrix"); eqMd(vtv, ident(n), exact, "V is orthogonal");
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (s[i] > 1e-6 && s[j] > 1e-6) eq(utu[i][j], i == j ? 1.0 : 0.0, exact, "U has orthonormal columns"); for (int i = 1; i <= m; i++) for (int j = 1; j <= n; j++) CHECK_EQ(A(i, j), a[i - 1][j - 1], "operand unchanged"); return s; }
static void penrose(const Md &a, const Md &x, bool exact) { Md ax = mul(a, x), xa = mul(x, a); eqMd(mul(ax, a), a, exact, "A X A = A"); eqMd(mul(xa, x), x, exact, "X A X = X"); eqMd(ax, tr(ax), exact, "A X is symmetric"); eqMd(xa, tr(xa), exact, "X A is symmetric"); }
static bool size(const Matrix &X, int r, int c) { bool ok = (int)X.rows() == r && (int)X.columns() == c; CHECK(ok, "size of the pseudo-inverse"); return ok; }
// orthogonal integer columns of equal norm
static Md ortho(int k, double &norm) { static const int A2[2][2] = {{3, -4}, {4, 3}}, A3[3][3] = {{1, 2, 2}, {2, 1, -2}, {2, -2, 1}}, A4[4][4] = {{1, 1, 1, 1}, {1, -1, 1, -1}, {1, 1, -1, -1}, {1, -1, -1, 1}}, P4[4][4] = {{0, 2, 0, 0}, {0, 0, 0, 2}, {2, 0, 0, 0}, {0, 0, 2, 0}}; int n = k == 0 ? 2 : k == 1 ? 3 : 4; Md r(n, Vd(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] = k == 0 ? A2[i][j] : k == 1 ? A3[i][j] : k == 2 ? A4[i][j] : P4[i][j]; norm = k == 0 ? 5 : k == 1 ? 3 : 2; return r; }
static void cols(int k, int c, int free, bool pinv) { // the first c columns, scaled by symbolic factors or zero
  double nrm; Md q = ortho(k, nrm); int n = q.size(); Vd d(c); Md a(n, Vd(c)); double eps = pinv && sym_int("own_eps", 0, 1) ? sym_real("eps") : 0.01; if (pinv) ASSUME_GT(eps, 0.0); for (int j = 0; j < c; j++) { int kind = sym_int("kind", 0, 2); ASSUME(kind < 2 || !pinv); if (kind == 0) { d[j] = 0.0; ASSUME(c < 3 || j == c - 1); } else if (j >= free) d[j] = kind == 1 ? 1.5 + j : -2.5 + j; else { d[j] = sym_real("d"); if (kind == 1) ASSUME_GT(d[j], 0.0); else ASSUME_LT(d[j], 0.0); } for (int i = 0; i < n; i++) a[i][j] = q[i][j] * d[j]; }
  if (!pinv) { svd(a, true); }
  else { Matrix X = eps == 0.01 ? toM(a).pseudoinverse() : toM(a).pseudoinverse(eps); if (!size(X, c, n)) return; for (int j = 0; j < c; j++) { double s = d[j] < 0 ? -nrm * d[j] : nrm * d[j]; bool keep = s >= eps; for (int i = 0; i < n; i++) CHECK_EQ(X(j + 1, i + 1), keep ? q[i][j] / (nrm * nrm * d[j]) : 0.0, "pseudo-inverse, small singular values dropped"); } }
  REACH("end"); }
CASE(svd_column) { int n = sym_int("n", 1, 4); double nr; Md q = ortho(n < 3 ? n == 1 ? 0 : 0 : n == 3 ? 1 : 2, nr); Md a(n, Vd(1)); double d = sym_real("d"); for (int i = 0; i < n; i++) a[i][0] = n == 1 ? d : q[i][0] * d; svd(a, true); REACH("end"); }
CASE(svd_2) { cols(0, 2, 2, false); }
CASE(svd_32) { cols(1, 2, 2, false); }
CASE(svd_3) { cols(1, 3, 2, false); }
CASE(svd_4) { cols(sym_int("k", 2, 3), sym_int("c", 2, 4), 1, false); }
CASE(pinv_2) { cols(0, sym_int("c", 1, 2), 2, true); }
CASE(pinv_3) { cols(1, sym_int("c", 1, 3), 2, true); }
CASE(pinv_4) { cols(sym_int("k", 2, 3), sym_int("c", 2, 4), 1, true); }
CASE(zero) { int m = sym_int("m", 1, 4), n = sym_int("n", 1, 4); Md a(m, Vd(n, 0.0)); Vd s = svd(a, true); for (double x : s) CHECK_EQ(x, 0.0, "no singular values"); Matrix X = toM(a).pseudoinverse(); if (size(X, n, m)) for (int i = 1; i <= n; i++) for (int j = 1; j <= m; j++) CHECK_EQ(X(i, j), 0.0, "pseudo-inverse of zero"); REACH("end"); }
CASE(diagonal) { int n = sym_int("n", 1, 4), m = sym_int("m", 1, 4); Md a(m, Vd(n, 0.0)), x(n, Vd(m, 0.0)); for (int i = 0; i < n && i < m; i++) { double d = sym_real("d"); ASSUME_GE(d * d, 0.0004); a[i][i] = d; x[i][i] = 1.0 / d; } svd(a, true); Matrix X = toM(a).pseudoinverse(); if (size(X, n, m)) eqM(X, x, "pseudo-inverse of a diagonal matrix"); REACH("end"); }
// matrices of every shape and rank, multiplied by a symbolic factor: the iteration runs in double precision
static Md base(int k) { static const int R[] = {1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 2, 4, 4, 3, 5, 5, 1, 4}, C[] = {2, 4, 1, 2, 2, 3, 2, 3, 3, 3, 4, 2, 4, 5, 3, 5, 3, 4}; int m = R[k], n = C[k]; Md a(m, Vd(n)); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a[i][j] = ((i * 5 + j * 3 + i * j * (k + 2) + k) % 7) - 3 + (i == j ? 0.5 * (k % 3) : 0.0); if (k == 4 || k == 8 || k == 17) for (int j = 0; j < n; j++) a[m - 1][j] = 2 * a[0][j]; if (k == 9) for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a[i][j] = (i + 1) * (j - 1.0); return a; }
static void scaled(int k, double lo, double hi) { sym_numeric(2); Md a = base(k); double t = sym_range("scale", lo, hi); if (sym_int("negative", 0, 1)) t = -t; for (Vd &r : a) for (double &x : r) x = x * t; int m = a.size(), n = a[0].size(); svd(a, false); Matrix X = toM(a).pseudoinverse(); if (size(X, n, m)) penrose(a, ofM(X), false); REACH("end"); }
CASE(scaled_small) { scaled(sym_int("k", 0, 7), 0.5, 4.0); }
CASE(scaled_square) { scaled(sym_int("k", 8, 12), 0.5, 4.0); }
CASE(scaled_large) { scaled(sym_int("k", 13, 17), 0.5, 4.0); }
// columns removed at any place
CASE(deficient) { sym_numeric(2); double nr; int k = sym_int("k", 1, 3); Md q = ortho(k, nr); int n = q.size(), c = sym_int("c", 3, n); double t = sym_range("scale", 0.5, 4.0); Md a(n, Vd(c)); for (int j = 0; j < c; j++) { int kind = sym_int("kind", 0, 2); for (int i = 0; i < n; i++) a[i][j] = kind == 0 ? 0.0 : q[i][j] * (kind == 1 ? 1.5 + j : -2.5) * t; } svd(a, false); Matrix X = toM(a).pseudoinverse(); if (size(X, c, n)) penrose(a, ofM(X), false); REACH("end"); }
// products of an m by r and an r by n factor: every shape and every rank
static void rank(int lim, int lo) { sym_numeric(2); int m = sym_int("m", 1, lim), n = sym_int("n", 1, lim); ASSUME(m >= lo || n >= lo); int r = sym_int("r", 1, m < n ? m : n); double t = sym_range("scale", 0.5, 4.0); Md a(m, Vd(n)); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { int x = 0; for (int l = 0; l < r; l++) x += ((i * 3 + l * 5 + i * l + 1) % 7 - 3) * ((j * 2 + l * 3 + j * l + 2) % 5 - 2); a[i][j] = x * t; } svd(a, false); Matrix X = toM(a).pseudoinverse(); if (size(X, n, m)) penrose(a, ofM(X), false); REACH("end"); }
CASE(rank_small) { rank(4, 1); }
CASE(rank_five) { rank(5, 5); }
CASE(rank_large) { rank(7, 6); }
CASE_T(rank_ten) { rank(10, 8); }
