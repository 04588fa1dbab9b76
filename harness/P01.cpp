// Matrix / vector arithmetic of the wrapper, every shape up to the bound, all entries symbolic.
#include "common.h"
static Md sca(const Md &a, int op, double k) { Md r = a; for (auto &x : r) for (auto &y : x) y = op == 0 ? y + k : op == 1 ? y - k : op == 2 ? y * k : op == 3 ? y / k : k; return r; }
static Vd sca(const Vd &a, int op, double k) { Vd r = a; for (auto &y : r) y = op == 0 ? y + k : op == 1 ? y - k : op == 2 ? y * k : op == 3 ? y / k : k; return r; }
static void shapes(int maxn, int &r, int &c) { r = sym_int("rows", 1, maxn); c = sym_int("cols", 1, maxn); }

CASE(matrix_scalar) {
  int r, c; shapes(4, r, c); Md a = symM("a", r, c); double k = sym_real("k"); ASSUME_NE(k, 0.0);
  const Matrix A = toM(a);
  eqM(A + k, sca(a, 0, k), "A + k"); eqM(A - k, sca(a, 1, k), "A - k"); eqM(A * k, sca(a, 2, k), "A * k"); eqM(A / k, sca(a, 3, k), "A / k");
  eqM(A, a, "operand of scalar operation unchanged");
  Matrix B = A; B += k; eqM(B, sca(a, 0, k), "A += k"); B = A; B -= k; eqM(B, sca(a, 1, k), "A -= k"); B = A; B *= k; eqM(B, sca(a, 2, k), "A *= k"); B = A; B /= k; eqM(B, sca(a, 3, k), "A /= k");
  B = k; eqM(B, sca(a, 4, k), "A = k"); eqM(A, a, "source of copy unchanged");
  REACH("end");
}
CASE(matrix_matrix) {
  int r, c; shapes(4, r, c); Md a = symM("a", r, c), b = symM("b", r, c);
  const Matrix A = toM(a), B = toM(b);
  eqM(A + B, add(a, b), "A + B"); eqM(A - B, add(a, b, -1), "A - B");
  Matrix C = A; C += B; eqM(C, add(a, b), "A += B"); C = A; C -= B; eqM(C, add(a, b, -1), "A -= B");
  C = A; C += C; eqM(C, add(a, a), "A += A"); C = A; C -= C; eqM(C, add(a, a, -1), "A -= A");
  eqM(A, a, "left operand unchanged"); eqM(B, b, "right operand unchanged");
  REACH("end");
}
CASE(matrix_product) {
  int r, c; shapes(3, r, c); int n = sym_int("inner", 1, 4); Md a = symM("a", r, n), b = symM("b", n, c);
  const Matrix A = toM(a), B = toM(b); eqM(A * B, mul(a, b), "A * B");
  Vd v = symV("v", n); const ColumnVector V = toC(v); eqC(A * V, mul(a, v), "A * v");
  eqM(A, a, "left operand unchanged"); eqC(V, v, "vector unchanged");
  if (r == n) { Matrix C = A; C = C * C; eqM(C, mul(a, a), "A = A * A"); }
  REACH("end");
}
CASE(matrix_product_large) {
  Md a = symM("a", 5, 6), b(6, Vd(5)); for (int i = 0; i < 6; i++) for (int j = 0; j < 5; j++) b[i][j] = (i * 3 + j * 7) % 11 - 4; b[2][3] = sym_real("b"); b[5][4] = sym_real("b'");
  eqM(toM(a) * toM(b), mul(a, b), "5x6 * 6x5"); eqM(toM(b) * toM(a), mul(b, a), "6x5 * 5x6"); eqM(toM(a).transpose(), tr(a), "5x6 transpose");
  REACH("end");
}
CASE(transpose) { int r, c; shapes(4, r, c); Md a = symM("a", r, c); const Matrix A = toM(a); eqM(A.transpose(), tr(a), "A'"); eqM(A, a, "transpose leaves operand"); CHECK(A.rows() == (unsigned)r && A.columns() == (unsigned)c, "rows/columns"); REACH("end"); }
CASE(symmetric_scalar) {
  int n = sym_int("n", 1, 4); Md a = symS("a", n); double k = sym_real("k"); ASSUME_NE(k, 0.0); const SymmetricMatrix A = toS(a);
  eqS(A + k, sca(a, 0, k), "S + k"); eqS(A - k, sca(a, 1, k), "S - k"); eqS(A * k, sca(a, 2, k), "S * k"); eqS(A / k, sca(a, 3, k), "S / k");
  SymmetricMatrix B = A; B += k; eqS(B, sca(a, 0, k), "S += k"); B = A; B -= k; eqS(B, sca(a, 1, k), "S -= k"); B = A; B *= k; eqS(B, sca(a, 2, k), "S *= k"); B = A; B /= k; eqS(B, sca(a, 3, k), "S /= k"); B = k; eqS(B, sca(a, 4, k), "S = k");
  eqS(A, a, "operand unchanged"); eqS(A.transpose(), a, "S'"); REACH("end");
}
CASE(symmetric_matrix) {
  int n = sym_int("n", 1, 4); int c = sym_int("cols", 1, 3); Md a = symS("a", n), b = symS("b", n), m = symM("m", n, n), w = symM("w", n, c);
  const SymmetricMatrix A = toS(a), B = toS(b); const Matrix M = toM(m), W = toM(w);
  eqS(A + B, add(a, b), "S + T"); eqS(A - B, add(a, b, -1), "S - T"); eqM(A * B, mul(a, b), "S * T"); eqM(A + M, add(a, m), "S + M"); eqM(A - M, add(a, m, -1), "S - M"); eqM(A * W, mul(a, w), "S * M"); eqM(M * (Matrix)A, mul(m, a), "M * S");
  SymmetricMatrix C = A; C += B; eqS(C, add(a, b), "S += T"); C = A; C -= B; eqS(C, add(a, b, -1), "S -= T"); C = A; C += C; eqS(C, add(a, a), "S += S");
  Vd v = symV("v", n); eqC(A * toC(v), mul(a, v), "S * v"); ColumnVector R(n); A.multiply(toC(v), R); eqC(R, mul(a, v), "S.multiply(v)");
  Matrix D; D = A; eqM(D, a, "M = S"); Matrix E(n, n); E = A; eqM(E, a, "M = S (sized)");
  eqS(A, a, "left operand unchanged"); eqS(B, b, "right operand unchanged"); REACH("end");
}
CASE(vector_ops) {
  int n = sym_int("n", 1, 4), m = sym_int("m", 1, 3); Vd a = symV("a", n), b = symV("b", n), c = symV("c", m); double k = sym_real("k"); ASSUME_NE(k, 0.0);
  const ColumnVector A = toC(a), B = toC(b); const RowVector RA = toR(a), RB = toR(b), RC = toR(c);
  eqC(A + B, add(a, b), "v + w"); eqC(A - B, add(a, b, -1), "v - w"); eqC(A + k, sca(a, 0, k), "v + k"); eqC(A - k, sca(a, 1, k), "v - k"); eqC(A * k, sca(a, 2, k), "v * k"); eqC(A / k, sca(a, 3, k), "v / k");
  ColumnVector C = A; C += B; eqC(C, add(a, b), "v += w"); C = A; C -= B; eqC(C, add(a, b, -1), "v -= w"); C = A; C += k; eqC(C, sca(a, 0, k), "v += k"); C = A; C -= k; eqC(C, sca(a, 1, k), "v -= k"); C = A; C *= k; eqC(C, sca(a, 2, k), "v *= k"); C = A; C /= k; eqC(C, sca(a, 3, k), "v /= k"); C = k; eqC(C, sca(a, 4, k), "v = k");
  eqR(RA + RB, add(a, b), "row v + w"); eqR(RA - RB, add(a, b, -1), "row v - w"); eqR(RA + k, sca(a, 0, k), "row v + k"); eqR(RA - k, sca(a, 1, k), "row v - k"); eqR(RA * k, sca(a, 2, k), "row v * k"); eqR(RA / k, sca(a, 3, k), "row v / k");
  RowVector D = RA; D += RB; eqR(D, add(a, b), "row v += w"); D = RA; D -= RB; eqR(D, add(a, b, -1), "row v -= w"); D = RA; D += k; eqR(D, sca(a, 0, k), "row v += k"); D = RA; D -= k; eqR(D, sca(a, 1, k), "row v -= k"); D = RA; D *= k; eqR(D, sca(a, 2, k), "row v *= k"); D = RA; D /= k; eqR(D, sca(a, 3, k), "row v /= k"); D = k; eqR(D, sca(a, 4, k), "row v = k");
  CHECK_EQ(RA * B, dot(a, b), "inner product"); Md o(n, Vd(m)); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) o[i][j] = a[i] * c[j]; eqM(A * RC, o, "outer product");
  eqR(A.transpose(), a, "column transpose"); eqC(RA.transpose(), a, "row transpose");
  eqC(A, a, "operand unchanged"); eqC(B, b, "operand unchanged"); eqR(RA, a, "operand unchanged"); eqR(RB, b, "operand unchanged"); REACH("end");
}
CASE(symmetric_inplace) { // a symmetric matrix in place with a general matrix of symmetric content
  int n = sym_int("n", 1, 4); Md a = symS("a", n), b = symS("b", n); const Matrix M = toM(b); SymmetricMatrix C = toS(a); C += M; eqS(C, add(a, b), "S += M"); C = toS(a); C -= M; eqS(C, add(a, b, -1), "S -= M"); eqM(M, b, "operand unchanged"); REACH("end"); }
CASE(mixed_aliases) { // the target also appears among the operands
  int n = sym_int("n", 1, 3); Md a = symM("a", n, n), s = symS("s", n); Vd v = symV("v", n); Matrix A = toM(a); A = A * A; eqM(A, mul(a, a), "A = A * A"); A = toM(a); A = A.transpose(); eqM(A, tr(a), "A = A'"); A = toM(a); A = A + A.transpose(); eqM(A, add(a, tr(a)), "A = A + A'"); A = toM(a); A -= A; eqM(A, add(a, a, -1), "A -= A"); A = toM(a); A = A; eqM(A, a, "A = A");
  SymmetricMatrix S = toS(s); S = S + S; eqS(S, add(s, s), "S = S + S"); S = toS(s); S = S.transpose(); eqS(S, s, "S = S'"); S = S; eqS(S, s, "S = S"); ColumnVector x = toC(v); x = toM(a) * x; eqC(x, mul(a, v), "x = A * x"); x = toC(v); x += x; eqC(x, add(v, v), "x += x"); x = toC(v); x = x; eqC(x, v, "x = x"); x = x - x; eqC(x, add(v, v, -1), "x = x - x"); x = toC(v); toS(s).multiply(x, x); eqC(x, mul(s, v), "S.multiply(x) stored into x"); x = toC(v); x = toS(s) * x; eqC(x, mul(s, v), "x = S * x"); x = toC(v); x -= x; eqC(x, add(v, v, -1), "x -= x"); RowVector y = toR(v); y = y + y; eqR(y, add(v, v), "y = y + y"); y = toR(v); y += y; eqR(y, add(v, v), "y += y"); y -= y; eqR(y, Vd(n, 0.0), "y -= y"); y = toR(v); y = y; eqR(y, v, "y = y");
  S = toS(s); S += S; eqS(S, add(s, s), "S += S"); S -= S; eqS(S, add(s, s, -1), "S -= S"); A = toM(a); A += A; eqM(A, add(a, a), "A += A"); S = toS(s); A = S; A = A * (Matrix)S; eqM(A, mul(s, s), "A = A * S"); REACH("end"); }
// beyond the fully symbolic shapes: every size of operand up to 9, concrete apart from a few entries
static Md mix(int r, int c, int s) { Md m(r, Vd(c)); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m[i][j] = (i * 5 + j * 3 + s) % 11 - 5; m[r - 1][c - 1] = sym_real("last"); m[r / 2][c / 3] = sym_real("mid"); m[0][c - 1] = sym_real("top"); return m; }
static Md mixS(int n, int s) { Md m = mix(n, n, s); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) m[i][j] = m[j][i]; return m; }
CASE(sizes_matrix) { int r = sym_int("rows", 5, 9), c = sym_int("cols", 5, 9), k = sym_int("inner", 6, 9); Md a = mix(r, k, 1), b = mix(k, c, 2), d = mix(r, k, 3); eqM(toM(a) * toM(b), mul(a, b), "A * B"); eqM(toM(a) + toM(d), add(a, d), "A + B"); eqM(toM(a) - toM(d), add(a, d, -1), "A - B"); eqM(toM(a).transpose(), tr(a), "A'"); Matrix A = toM(a); A += toM(d); eqM(A, add(a, d), "A += B"); A -= toM(d); eqM(A, a, "A -= B"); Vd v = b.size() ? tr(b)[c - 1] : Vd(); eqC(toM(a) * toC(v), mul(a, v), "A * v"); eqM(toM(a) * 3.0, sca(a, 2, 3.0), "A * k"); REACH("end"); }
CASE(sizes_symmetric) { int n = sym_int("n", 5, 9); Md a = mixS(n, 1), b = mixS(n, 4), m = mix(n, n, 2); const SymmetricMatrix A = toS(a), B = toS(b); eqS(A + B, add(a, b), "S + T"); eqS(A - B, add(a, b, -1), "S - T"); eqM(A * B, mul(a, b), "S * T"); eqM(A * toM(m), mul(a, m), "S * M"); eqM(A + toM(m), add(a, m), "S + M"); eqM(toM(m) * (Matrix)A, mul(m, a), "M * S"); Vd v = m[n - 1]; eqC(A * toC(v), mul(a, v), "S * v"); SymmetricMatrix C = A; C += B; eqS(C, add(a, b), "S += T"); C *= 2.0; eqS(C, sca(add(a, b), 2, 2.0), "S *= k"); eqS(A, a, "operand unchanged"); REACH("end"); }
CASE(sizes_vector) { int n = sym_int("n", 5, 12), m = sym_int("m", 5, 7); Vd a = symV("a", n), b = symV("b", n), c = symV("c", m); eqC(toC(a) + toC(b), add(a, b), "v + w"); eqC(toC(a) - toC(b), add(a, b, -1), "v - w"); eqR(toR(a) + toR(b), add(a, b), "row v + w"); CHECK_EQ(toR(a) * toC(b), dot(a, b), "inner product"); Md o(n, Vd(m)); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) o[i][j] = a[i] * c[j]; eqM(toC(a) * toR(c), o, "outer product"); eqR(toC(a).transpose(), a, "column transpose"); eqC(toR(a).transpose(), a, "row transpose"); ColumnVector x = toC(a); x += toC(b); x *= 2.0; eqC(x, sca(add(a, b), 2, 2.0), "in place"); REACH("end"); }
// far beyond the fully symbolic sizes: fixed values apart from a few free ones
CASE(big) { int k = sym_int("k", 0, 3); static const int R[] = {11, 17, 33, 40}, C[] = {13, 34, 16, 40}, K[] = {34, 12, 10, 41}; int r = R[k], c = C[k], n = K[k]; Md a = mix(r, n, 1), b = mix(n, c, 2), d = mix(r, n, 3), s = mixS(n, 1), t = mixS(n, 4); eqM(toM(a) * toM(b), mul(a, b), "A * B"); eqM(toM(a) + toM(d), add(a, d), "A + B"); eqM(toM(a) - toM(d), add(a, d, -1), "A - B"); eqM(toM(a).transpose(), tr(a), "A'"); Matrix A = toM(a); A += toM(d); A -= toM(a); A *= 2.0; eqM(A, sca(d, 2, 2.0), "in place"); eqC(toM(a) * toC(s[n - 1]), mul(a, s[n - 1]), "A * v"); eqS(toS(s) + toS(t), add(s, t), "S + T"); eqS(toS(s) - toS(t), add(s, t, -1), "S - T"); eqM(toS(s) * toS(t), mul(s, t), "S * T"); eqM(toS(s) * toM(b), mul(s, b), "S * M"); eqC(toS(s) * toC(t[0]), mul(s, t[0]), "S * v"); CHECK_EQ(toR(s[0]) * toC(t[0]), dot(s[0], t[0]), "inner product"); eqC(toC(s[0]) + toC(t[0]), add(s[0], t[0]), "v + w"); eqR(toR(s[0]) - toR(t[0]), add(s[0], t[0], -1), "row v - w"); CHECK((toM(a) == toM(a)) && (toS(s) == toS(s)), "equality"); Md e = a; e[r - 2][n - 2] = e[r - 2][n - 2] + 1; CHECK(!(toM(a) == toM(e)), "difference in one place"); REACH("end"); }
