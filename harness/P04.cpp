// Cholesky factor of positive semidefinite matrices
#include "common.h"
static void chol(int n, bool semi) {
  Md L(n, Vd(n, 0.0)); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { L[i][j] = sym_real(nm("L", i, j).c_str()); if (semi && i != j) { if (sym_int("zo", 0, 1)) L[i][j] = 0.0; else ASSUME_GE(L[i][j] * L[i][j], 1e-6); } if (i == j) { if (semi && sym_int(nm("zero", i).c_str(), 0, 1)) L[i][j] = 0.0; else ASSUME_GE(L[i][j], 1e-6); } }
  Md a = mul(L, tr(L)); const SymmetricMatrix A = toS(a); Matrix F; bool ok = A.cholesky_semidefinite(F);
  CHECK(ok, "factorisation of a positive semidefinite matrix succeeds"); CHECK(F.rows() == (unsigned)n && F.columns() == (unsigned)n, "factor size");
  Md f(n, Vd(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { f[i][j] = F(i + 1, j + 1); if (j > i) CHECK_EQ(f[i][j], 0.0, "factor is lower triangular"); }
  Md p = mul(f, tr(f)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK_EQ(p[i][j], a[i][j], "L * L' reproduces the matrix"); eqS(A, a, "operand unchanged"); REACH("end");
}
CASE(definite_1) { chol(1, false); }
CASE(definite_2) { chol(2, false); }
CASE(definite_3) { chol(3, false); }
CASE(definite_4) { chol(4, false); }
CASE(semidefinite_1) { chol(1, true); }
CASE(semidefinite_2) { chol(2, true); }
CASE(diagonal) { int n = sym_int("n", 1, 5); Md a(n, Vd(n, 0.0)); for (int i = 0; i < n; i++) { if (sym_int("z", 0, 1)) a[i][i] = 0; else { a[i][i] = sym_real(nm("d", i).c_str()); ASSUME_GE(a[i][i], 1e-6); } } Matrix F; bool ok = toS(a).cholesky_semidefinite(F); CHECK(ok, "diagonal factorises"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (i == j) { CHECK_EQ(F(i + 1, i + 1) * F(i + 1, i + 1), a[i][i], "diagonal factor squared"); CHECK_GE(F(i + 1, i + 1), 0.0, "factor diagonal nonnegative"); } else CHECK_EQ(F(i + 1, j + 1), 0.0, "diagonal factor"); } REACH("end"); }
CASE(indefinite) { int n = sym_int("n", 1, 3); int k = sym_int("k", 0, 2); ASSUME(k < n); Md a(n, Vd(n, 0.0)); for (int i = 0; i < n; i++) { a[i][i] = sym_real(nm("d", i).c_str()); if (i == k) ASSUME_LE(a[i][i], -1e-6); else ASSUME_GE(a[i][i], 1e-6); } if (n > 1 && k > 0) a[k][0] = a[0][k] = sym_real("o"); Matrix F; bool ok = toS(a).cholesky_semidefinite(F); CHECK(!ok, "a matrix with a negative direction is rejected"); REACH("end"); }
CASE(sizes) { // concrete factors of larger size with one symbolic entry
  int n = sym_int("n", 5, 8); Md L(n, Vd(n, 0.0)); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) L[i][j] = i == j ? 1 + i % 3 : (i * 2 + j) % 5 - 2; int k = sym_int("row", 0, 3); L[n - 1 - k][k < 2 ? 0 : n - 1 - k] = sym_range("l", 0.5, 100); Md a = mul(L, tr(L)); const SymmetricMatrix A = toS(a); Matrix F; CHECK(A.cholesky_semidefinite(F), "factorises"); Md f(n, Vd(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { f[i][j] = F(i + 1, j + 1); if (j > i) CHECK_EQ(f[i][j], 0.0, "factor is lower triangular"); } Md p = mul(f, tr(f)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK_EQ(p[i][j], a[i][j], "L * L' reproduces the matrix"); eqS(A, a, "operand unchanged"); REACH("end"); }
// far beyond the fully symbolic sizes: fixed values apart from a few free ones
CASE(big) { int n = sym_int("n", 0, 1) ? 12 : 20; Md L(n, Vd(n, 0.0)); for (int i = 0; i < n; i++) for (int j = i < 3 ? 0 : i - 3; j <= i; j++) L[i][j] = i == j ? 1 + i % 3 : (i * 2 + j) % 5 - 2; int k = sym_int("row", 0, 1); L[n - 1][k ? n - 2 : n - 1] = sym_range("l", 0.5, 100); Md a = mul(L, tr(L)); const SymmetricMatrix A = toS(a); Matrix F; CHECK(A.cholesky_semidefinite(F), "factorises"); Md f(n, Vd(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { f[i][j] = F(i + 1, j + 1); if (j > i) CHECK_EQ(f[i][j], 0.0, "factor is lower triangular"); } Md p = mul(f, tr(f)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK_EQ(p[i][j], a[i][j], "L * L' reproduces the matrix"); eqS(A, a, "operand unchanged"); REACH("end"); }
