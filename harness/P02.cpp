// inverse and determinant
#include "common.h"
static void full(int n) {
  Md a = symM("a", n, n); const Matrix A = toM(a);
  double d = det(a); ASSUME_NE(d, 0.0);
  CHECK_EQ(A.determinant(), d, "determinant"); Matrix I = A.inverse(); CHECK(I.rows() == (unsigned)n && I.columns() == (unsigned)n, "inverse size");
  Md iv(n, Vd(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) iv[i][j] = I(i + 1, j + 1);
  Md p = mul(a, iv), q = mul(iv, a); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { CHECK_EQ(p[i][j], i == j ? 1.0 : 0.0, "A * inverse(A) = I"); CHECK_EQ(q[i][j], i == j ? 1.0 : 0.0, "inverse(A) * A = I"); }
  eqM(A, a, "operand unchanged"); REACH("end");
}
static void sfull(int n) {
  Md a = symS("a", n); const SymmetricMatrix A = toS(a); double d = det(a); ASSUME_NE(d, 0.0);
  CHECK_EQ(A.determinant(), d, "symmetric determinant"); SymmetricMatrix I = A.inverse(); CHECK(I.rows() == (unsigned)n, "inverse size");
  Md iv(n, Vd(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) iv[i][j] = I(i + 1, j + 1);
  Md p = mul(a, iv); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK_EQ(p[i][j], i == j ? 1.0 : 0.0, "S * inverse(S) = I");
  eqS(A, a, "operand unchanged"); REACH("end");
}
CASE(general_1) { full(1); }
CASE(general_2) { full(2); }
CASE(symmetric_1) { sfull(1); }
CASE(symmetric_2) { sfull(2); }
// 3x3 and larger: a concrete matrix with symbolic entries in chosen places
static const double base3[6][3][3] = {{{4, 1, -2}, {3, -5, 2}, {1, 6, 3}}, {{0, 2, 1}, {3, 0, -1}, {1, 4, 0}}, {{1, 2, 3}, {4, 5, 6}, {7, 8, 9}}, {{2, 0, 0}, {0, 0, 5}, {0, -3, 0}}, {{0, 0, 2}, {0, 3, 0}, {5, 0, 0}}, {{1, -1, 2}, {2, -2, 5}, {3, 1, 0}}};
static void part(const Md &a0, int i1, int j1, int i2, int j2, bool invertible) {
  int n = a0.size(); Md a = a0; a[i1][j1] = sym_real("p"); if (i2 >= 0) a[i2][j2] = sym_real("q"); const Matrix A = toM(a); double d = det(a);
  if (invertible) ASSUME_NE(d, 0.0);
  CHECK_EQ(A.determinant(), d, "determinant");
  if (!invertible) { REACH("end"); return; }
  Matrix I = A.inverse(); Md iv(n, Vd(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) iv[i][j] = I(i + 1, j + 1);
  Md p = mul(a, iv); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK_EQ(p[i][j], i == j ? 1.0 : 0.0, "A * inverse(A) = I");
  eqM(A, a, "operand unchanged"); REACH("end");
}
static Md b3(int k) { Md r(3, Vd(3)); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i][j] = base3[k][i][j]; return r; }
CASE(general_3_one) { int k = sym_int("base", 0, 5); int e = sym_int("entry", 0, 8); part(b3(k), e / 3, e % 3, -1, -1, true); }
CASE(general_3_two) { int k = sym_int("base", 0, 5); int e = sym_int("entry", 0, 2); part(b3(k), 0, e, 2, (e + 1) % 3, true); }
CASE(determinant_3_all) { int k = sym_int("base", 0, 5); int e = sym_int("entry", 0, 8); part(b3(k), e / 3, e % 3, -1, -1, false); }
static Md bn(int n, int s) { Md r(n, Vd(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] = (i == j ? 5 + i : 0) + ((i * 5 + j * 3 + s) % 7) - 3; return r; }
CASE(general_4) { int e = sym_int("entry", 0, 15); part(bn(4, 0), e / 4, e % 4, -1, -1, true); }
CASE(general_5) { int e = 6 * sym_int("entry", 0, 4); part(bn(5, 1), e / 5, e % 5, -1, -1, true); }
CASE_T(general_4_more) { int e = sym_int("entry", 0, 15); part(bn(4, sym_int("s", 1, 3)), e / 4, e % 4, -1, -1, true); }
CASE_T(general_5_all) { int e = sym_int("entry", 0, 24); part(bn(5, sym_int("s", 0, 2)), e / 5, e % 5, -1, -1, true); }
CASE_T(general_6) { int e = sym_int("entry", 0, 35); part(bn(6, 2), e / 6, e % 6, -1, -1, true); }
static void spart(int n, int s) {
  Md a = bn(n, s); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a[i][j] = a[j][i]; int i = sym_int("i", 0, n - 1), j = sym_int("j", 0, n - 1); ASSUME(j <= i); a[i][j] = a[j][i] = sym_real("p");
  const SymmetricMatrix A = toS(a); double d = det(a); ASSUME_NE(d, 0.0); CHECK_EQ(A.determinant(), d, "symmetric determinant"); SymmetricMatrix I = A.inverse();
  Md iv(n, Vd(n)); for (int r = 0; r < n; r++) for (int c = 0; c < n; c++) iv[r][c] = I(r + 1, c + 1); Md p = mul(a, iv); for (int r = 0; r < n; r++) for (int c = 0; c < n; c++) CHECK_EQ(p[r][c], r == c ? 1.0 : 0.0, "S * inverse(S) = I"); REACH("end");
}
CASE(symmetric_3) { spart(3, sym_int("s", 0, 2)); }
CASE(symmetric_4) { spart(4, 1); }
CASE(permutations) { // every permutation matrix with symbolic scale factors: all pivoting orders
  int perm[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; int k = sym_int("perm", 0, 5); Md a(3, Vd(3, 0.0)); for (int i = 0; i < 3; i++) a[i][perm[k][i]] = sym_real(nm("s", i).c_str());
  const Matrix A = toM(a); double d = det(a); ASSUME_NE(d, 0.0); CHECK_EQ(A.determinant(), d, "determinant of scaled permutation"); Matrix I = A.inverse(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) CHECK_EQ(I(j + 1, i + 1), perm[k][i] == j ? 1 / a[i][j] : 0.0, "inverse of scaled permutation"); REACH("end");
}
CASE_T(general_3_three) { int k = sym_int("base", 0, 5); Md a = b3(k); int n = 3; a[0][0] = sym_real("p"); a[1][1] = sym_real("q"); a[2][2] = sym_real("r"); const Matrix A = toM(a); double d = det(a); ASSUME_NE(d, 0.0); CHECK_EQ(A.determinant(), d, "determinant"); Matrix I = A.inverse(); Md iv(n, Vd(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) iv[i][j] = I(i + 1, j + 1); Md p = mul(a, iv); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK_EQ(p[i][j], i == j ? 1.0 : 0.0, "A * inverse(A) = I"); REACH("end"); }
CASE(determinant_symmetric_all) { int n = sym_int("n", 3, 4); Md a = n == 3 ? b3(sym_int("base", 0, 5)) : bn(4, 0); if (n == 4) for (int j = 0; j < 4; j++) { a[3][j] = a[2][j]; } for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a[j][i] = a[i][j]; if (n == 4) { a[3][3] = a[2][2]; a[2][3] = a[3][2] = a[2][2]; } int e = sym_int("entry", 0, 5); int r[6] = {0, 1, 1, 2, 2, 2}, c[6] = {0, 0, 1, 0, 1, 2}; a[r[e]][c[e]] = a[c[e]][r[e]] = sym_real("p"); CHECK_EQ(toS(a).determinant(), det(a), "symmetric determinant"); REACH("end"); }
CASE(sizes) { int n = sym_int("n", 6, 8); Md a = bn(n, n); int e = sym_int("entry", 0, 1); ASSUME(e || n == 6); a[e ? n - 1 : 1][e ? n - 1 : 2] = sym_real("p"); const Matrix A = toM(a); double d = 0; { Md r = a; /* elimination in the specification on a copy: fraction-free by expansion along the symbolic row */ int k = e ? n - 1 : 1; for (int c = 0; c < n; c++) { Md m; for (int i = 0; i < n; i++) if (i != k) { Vd w; for (int j = 0; j < n; j++) if (j != c) w.push_back(r[i][j]); m.push_back(w); } d = d + ((k + c) % 2 ? -1.0 : 1.0) * r[k][c] * det(m); } } ASSUME_NE(d, 0.0); CHECK_EQ(A.determinant(), d, "determinant"); Matrix I = A.inverse(); Md iv(n, Vd(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) iv[i][j] = I(i + 1, j + 1); Md p = mul(a, iv); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK_EQ(p[i][j], i == j ? 1.0 : 0.0, "A * inverse(A) = I"); eqM(A, a, "operand unchanged"); REACH("end"); }
CASE(self) { int n = sym_int("n", 1, 3); Md a = n == 3 ? b3(sym_int("base", 0, 5)) : symM("a", n, n); if (n == 3) a[2][2] += sym_real("e"); double D = det(a); ASSUME_NE(D, 0.0); Matrix A = toM(a); A = A.inverse(); eqM(A, inv(a), "A = A.inverse()"); Md s = a; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) s[i][j] = s[j][i]; double E = det(s); ASSUME_NE(E, 0.0); SymmetricMatrix S = toS(s); S = S.inverse(); eqS(S, inv(s), "S = S.inverse()"); REACH("end"); }
// far beyond the fully symbolic sizes: fixed values apart from a few free ones
CASE(big) { int n = sym_int("n", 0, 1) ? 10 : 13, sy = sym_int("symmetric", 0, 1); Md a(n, Vd(n, 0.0)); for (int i = 0; i < n; i++) { a[i][i] = 4 + i % 3; if (i) { a[i][i - 1] = -1; a[i - 1][i] = sy ? -1 : 2; } } a[0][n - 1] = a[n - 1][0] = 1; if (!sy) std::swap(a[1], a[n - 2]); a[n - 1][n - 1] = sym_range("p", 100, 1000); Md m = a, k = a; m[n - 1][n - 1] = 0; k[n - 1][n - 1] = 1; double d0 = 1, d1 = 1; for (int w = 0; w < 2; w++) { Md r = w ? k : m; double d = 1; for (int c = 0; c < n; c++) { int q = c; while (q < n && r[q][c] == 0.0) q++; if (q == n) { d = 0; break; } if (q != c) { std::swap(r[q], r[c]); d = -d; } d = d * r[c][c]; for (int i = c + 1; i < n; i++) { double f = r[i][c] / r[c][c]; for (int j = c; j < n; j++) r[i][j] = r[i][j] - f * r[c][j]; } } (w ? d1 : d0) = d; } double d = d0 + a[n - 1][n - 1] * (d1 - d0); ASSUME_NE(d, 0.0); Md iv(n, Vd(n)); if (sy) { const SymmetricMatrix A = toS(a); CHECK_EQ(A.determinant(), d, "determinant"); SymmetricMatrix I = A.inverse(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) iv[i][j] = I(i + 1, j + 1); } else { const Matrix A = toM(a); CHECK_EQ(A.determinant(), d, "determinant"); Matrix I = A.inverse(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) iv[i][j] = I(i + 1, j + 1); } Md p = mul(a, iv); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK_EQ(p[i][j], i == j ? 1.0 : 0.0, "A * inverse(A) = I"); REACH("end"); }
