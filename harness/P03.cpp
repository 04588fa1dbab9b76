// element access, sub-blocks, copies of rows and columns, joining, resizing, comparison, conversion
#include "common.h"
CASE(access) {
  int r = sym_int("rows", 1, 4), c = sym_int("cols", 1, 4); Md a = symM("a", r, c); Matrix A = toM(a); const Matrix &K = A;
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { CHECK_EQ(K(i + 1, j + 1), a[i][j], "const element access"); CHECK_EQ(A(i + 1, j + 1), a[i][j], "element access"); }
  double x = sym_real("x"); int i = sym_int("i", 1, 4), j = sym_int("j", 1, 4); ASSUME(i <= r && j <= c); A(i, j) = x; a[i - 1][j - 1] = x; eqM(A, a, "writing one element changes only it"); REACH("end");
}
CASE(rows_columns) {
  int r = sym_int("rows", 1, 4), c = sym_int("cols", 1, 4); Md a = symM("a", r, c); const Matrix A = toM(a);
  for (int i = 0; i < r; i++) eqR(A.rowCopy(i + 1), a[i], "row copy"); Md t = tr(a); for (int j = 0; j < c; j++) eqC(A.columnCopy(j + 1), t[j], "column copy"); eqM(A, a, "source unchanged");
  Md s = symS("s", r); SymmetricMatrix S = toS(s); for (int i = 0; i < r; i++) eqR(S.rowCopy(i + 1), s[i], "row copy of symmetric matrix");
  Vd v = symV("v", c); Matrix M(r, toR(v)); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) CHECK_EQ(M(i + 1, j + 1), v[j], "matrix from repeated row"); REACH("end");
}
CASE(sub_blocks) {
  const int N = 4; Md a = symM("a", N, N), s = symS("s", N); Vd v = symV("v", N); const Matrix A = toM(a); const SymmetricMatrix S = toS(s); const ColumnVector C = toC(v); const RowVector R = toR(v);
  int i0 = sym_int("i0", 1, N), i1 = sym_int("i1", 1, N), j0 = sym_int("j0", 1, N), j1 = sym_int("j1", 1, N); ASSUME(i0 <= i1 && j0 <= j1);
  Md b, t; Vd w; for (int i = i0; i <= i1; i++) { Vd x, y; for (int j = j0; j <= j1; j++) { x.push_back(a[i - 1][j - 1]); y.push_back(s[i - 1][j - 1]); } b.push_back(x); t.push_back(y); } for (int j = j0; j <= j1; j++) w.push_back(v[j - 1]);
  eqM(A.sub(i0, i1, j0, j1), b, "sub matrix"); eqM(S.sub(i0, i1, j0, j1), t, "sub matrix of symmetric matrix"); if (i0 == 1 && i1 == 1) { eqC(C.sub(j0, j1), w, "sub column vector"); eqR(R.sub(j0, j1), w, "sub row vector"); } REACH("end");
}
CASE(join) {
  int n = sym_int("n", 1, 4), m = sym_int("m", 1, 4); Vd a = symV("a", n), b = symV("b", m), j = a; for (double x : b) j.push_back(x);
  eqC(toC(a).vectorAdd(toC(b)), j, "joined column vectors"); eqR(toR(a).vectorAdd(toR(b)), j, "joined row vectors"); eqC(ColumnVector(toC(a), toC(b)), j, "column vector from two"); REACH("end");
}
CASE(fill) {
  int n = sym_int("n", 1, 4), m = sym_int("m", 1, 4); double k = sym_real("k"); Vd v = symV("v", m), f(n, k);
  eqC(ColumnVector(n, k), f, "constant column vector"); eqR(RowVector(n, k), f, "constant row vector"); ColumnVector c = toC(v); c.assign(n, k); eqC(c, f, "assign column vector"); RowVector r = toR(v); r.assign(n, k); eqR(r, f, "assign row vector"); REACH("end");
}
CASE(resize) {
  int n = sym_int("n", 1, 4), m = sym_int("m", 1, 4), p = sym_int("p", 1, 4), q = sym_int("q", 1, 4); Vd v = symV("v", n); Md a = symM("a", n, m);
  if (m == 1 && q == 1) { ColumnVector c = toC(v); c.resize(p); CHECK(c.rows() == (unsigned)p, "resized column vector size"); for (int i = 0; i < p && i < n; i++) CHECK_EQ(c(i + 1), v[i], "resize keeps leading elements"); for (int i = 0; i < p; i++) c(i + 1) = 7.0 + i; for (int i = 0; i < p; i++) CHECK_EQ(c(i + 1), 7.0 + i, "resized vector is writable");
    RowVector r = toR(v); r.resize(p); CHECK(r.columns() == (unsigned)p, "resized row vector size"); for (int i = 0; i < p && i < n; i++) CHECK_EQ(r(i + 1), v[i], "resize keeps leading elements"); }
  Matrix A = toM(a); A.resize(p, q); CHECK(A.rows() == (unsigned)p && A.columns() == (unsigned)q, "resized matrix size"); for (int i = 0; i < p && i < n; i++) for (int j = 0; j < q && j < m; j++) CHECK_EQ(A(i + 1, j + 1), a[i][j], "resize keeps the common block");
  if (n == m && q == 1) { Md s = symS("s", n); SymmetricMatrix S = toS(s); S.resize(p); CHECK(S.rows() == (unsigned)p && S.columns() == (unsigned)p, "resized symmetric matrix size"); for (int i = 0; i < p && i < n; i++) for (int j = 0; j < p && j < n; j++) CHECK_EQ(S(i + 1, j + 1), s[i][j], "resize keeps the common block"); }
  REACH("end");
}
CASE(equality) {
  int n = sym_int("n", 1, 2), m = sym_int("m", 1, 2); Md a = symM("a", n, m), b = symM("b", n, m); bool same = true; 
  bool e = toM(a) == toM(b); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (a[i][j] != b[i][j]) same = false; CHECK(e == same, "matrix equality is element-wise equality"); REACH("end");
}
CASE(equality_vec) {
  int n = sym_int("n", 1, 3); Vd a = symV("a", n), b = symV("b", n); bool same = true; bool e = toC(a) == toC(b), f = toR(a) == toR(b); for (int i = 0; i < n; i++) if (a[i] != b[i]) same = false; CHECK(e == same, "column vector equality"); CHECK(f == same, "row vector equality");
  CHECK(!(toC(a) == ColumnVector(n + 1)), "column vectors of different size differ"); CHECK(!(toR(a) == RowVector(n + 1)), "row vectors of different size differ"); REACH("end");
}
CASE(equality_sym) { int n = sym_int("n", 1, 2); Md a = symS("a", n), b = symS("b", n); bool same = true; bool e = toS(a) == toS(b); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) if (a[i][j] != b[i][j]) same = false; CHECK(e == same, "symmetric equality"); CHECK(!(toS(a) == SymmetricMatrix(n + 1)), "symmetric matrices of different size differ"); Matrix A(2, 2), B(2, 3); CHECK(!(A == B), "matrices of different shape differ"); REACH("end"); }
CASE(convert) {
  int n = sym_int("n", 1, 4), k = sym_int("old", 1, 4); Md s = symS("s", n); Matrix A = toM(s); Md o = symS("o", k); SymmetricMatrix S = toS(o); A.convertToSymmetricMatrix(S); eqS(S, s, "conversion of a symmetric matrix"); eqM(A, s, "source unchanged");
  Md g = symM("g", n, n), h = g; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) h[i][j] = g[j][i]; Matrix G = toM(g); SymmetricMatrix H; G.convertToSymmetricMatrix(H); eqS(H, h, "conversion takes the lower triangle"); REACH("end");
}
CASE(copies) {
  int n = sym_int("n", 1, 3); Md a = symM("a", n, n), s = symS("s", n); Vd v = symV("v", n); double x = sym_real("x");
  Matrix A = toM(a), B(A), C; C = A; B(1, n) = x; C(n, 1) = x; eqM(A, a, "matrix copies are independent"); SymmetricMatrix S = toS(s), T(S), U; U = S; T(1, n) = x; U(n, 1) = x; eqS(S, s, "symmetric copies are independent");
  ColumnVector c = toC(v), d(c), e; e = c; d(n) = x; e(1) = x; eqC(c, v, "column copies are independent"); RowVector r = toR(v), q(r), p; p = r; q(n) = x; p(1) = x; eqR(r, v, "row copies are independent"); c(1) = x; CHECK_EQ(e(1), x, "written"); REACH("end");
}
CASE(index_operator) {
  int n = sym_int("n", 1, 4); Vd v = symV("v", n); ColumnVector c = toC(v); const ColumnVector &k = c; RowVector r = toR(v); CHECK(c.rows() == (unsigned)n && c.columns() == 1 && c.size() == (unsigned)n && r.columns() == (unsigned)n && r.rows() == 1 && r.size() == (unsigned)n, "sizes of vectors");
  for (int i = 0; i < n; i++) { CHECK_EQ(k[i], v[i], "v[i] counts from zero"); CHECK_EQ(c[i], v[i], "v[i] counts from zero"); CHECK_EQ(r(i + 1), v[i], "row element"); } int i = sym_int("i", 0, 3); ASSUME(i < n); double x = sym_real("x"); c[i] = x; v[i] = x; eqC(c, v, "writing v[i] changes only it"); double y = sym_real("y"); r(i + 1) = y; Vd w = v; w[i] = y; eqR(r, w, "writing one row element changes only it");
  Md s = symS("s", n); SymmetricMatrix S = toS(s); const SymmetricMatrix &K = S; CHECK(S.rows() == (unsigned)n && S.columns() == (unsigned)n, "size of a symmetric matrix"); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { CHECK_EQ(K(a + 1, b + 1), s[a][b], "symmetric element"); CHECK_EQ(S(a + 1, b + 1), s[a][b], "symmetric element"); } REACH("end"); }
CASE(resize_fresh) { int n = sym_int("n", 1, 3), p = sym_int("p", 1, 3), q = sym_int("q", 1, 3); Md a = symM("a", p, q), s = symS("s", p); Matrix A(n, n); A = 1.0; A.resize(p, q, false, false); CHECK(A.rows() == (unsigned)p && A.columns() == (unsigned)q, "size after resize without copy"); for (int i = 0; i < p; i++) for (int j = 0; j < q; j++) A(i + 1, j + 1) = a[i][j]; eqM(A, a, "filled after resize"); SymmetricMatrix S(n); S = 1.0; S.resize(p, false, false); CHECK(S.rows() == (unsigned)p && S.columns() == (unsigned)p, "size after resize without copy"); for (int i = 0; i < p; i++) for (int j = 0; j < p; j++) S(i + 1, j + 1) = s[i][j]; eqS(S, s, "filled after resize"); REACH("end"); }
CASE(capacity) { int n = sym_int("n", 1, 4), m = sym_int("m", 1, 4); Matrix A(n, m); CHECK(A.rows() == (unsigned)n && A.columns() == (unsigned)m && A.size() == (unsigned)n && A.capacity() == (unsigned)n, "sizes of a matrix"); SymmetricMatrix S(n); CHECK(S.size() == (unsigned)n && S.capacity() == (unsigned)n, "sizes of a symmetric matrix"); ColumnVector c(n); RowVector r(n); CHECK(c.capacity() >= (unsigned)n && r.capacity() >= (unsigned)n, "capacity of a vector"); Md s = symS("s", n); SymmetricMatrix T; CHECK(toM(s).convertToSymmetricMatrix(T) == 0, "conversion succeeds"); double k = sym_real("k"); SymmetricMatrix F(n, RowVector(n, k)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK_EQ(F(i + 1, j + 1), k, "symmetric matrix from one constant row"); REACH("end"); }
CASE(sizes) { // larger shapes, every entry symbolic
  int n = sym_int("n", 5, 9), m = sym_int("m", 5, 9); Md a = symM("a", n, m), s = symS("s", n), t = tr(a); const Matrix A = toM(a); eqM(A, a, "elements"); Matrix B(A); eqM(B, a, "copy"); for (int i = 0; i < n; i++) eqR(A.rowCopy(i + 1), a[i], "row copy"); for (int j = 0; j < m; j++) eqC(A.columnCopy(j + 1), t[j], "column copy"); Md b; for (int i = 1; i < n - 1; i++) b.push_back(Vd(a[i].begin() + 2, a[i].end())); eqM(A.sub(2, n - 1, 3, m), b, "sub matrix"); SymmetricMatrix S = toS(s), T; eqS(S, s, "symmetric elements"); toM(s).convertToSymmetricMatrix(T); eqS(T, s, "conversion"); T = S; eqS(T, s, "assignment"); Matrix D; D = S; eqM(D, s, "symmetric to general"); eqC(toC(a[0]).vectorAdd(toC(t[0])), [&] { Vd j = a[0]; j.insert(j.end(), t[0].begin(), t[0].end()); return j; }(), "joined vectors"); eqC(toC(a[1]).sub(2, m - 1), Vd(a[1].begin() + 1, a[1].end() - 1), "sub vector"); B.resize(n + 2, m - 2); for (int i = 0; i < n; i++) for (int j = 0; j < m - 2; j++) CHECK_EQ(B(i + 1, j + 1), a[i][j], "resize keeps the common block"); REACH("end"); }
CASE(self) { // results stored into the object they are taken from
  int n = sym_int("n", 2, 4), m = sym_int("m", 2, 3), a = sym_int("a", 1, 2), b = sym_int("b", 2, 4), c = sym_int("c", 1, 2), d = sym_int("d", 2, 3); ASSUME(b <= n && d <= m && a <= b && c <= d); Md k = symM("k", n, m), s = symS("s", n); Vd v = symV("v", n);
  Md e(b - a + 1, Vd(d - c + 1)); for (int i = a; i <= b; i++) for (int j = c; j <= d; j++) e[i - a][j - c] = k[i - 1][j - 1]; Matrix A = toM(k); A = A.sub(a, b, c, d); eqM(A, e, "A = A.sub"); Vd w(v.begin() + a - 1, v.begin() + b), vv = v; vv.insert(vv.end(), v.begin(), v.end());
  ColumnVector x = toC(v); x = x.sub(a, b); eqC(x, w, "x = x.sub"); RowVector y = toR(v); y = y.sub(a, b); eqR(y, w, "y = y.sub"); x = toC(v); x = x.vectorAdd(x); eqC(x, vv, "x = x.vectorAdd(x)"); y = toR(v); y = y.vectorAdd(y); eqR(y, vv, "y = y.vectorAdd(y)");
  A = toM(k); A.resize(n, m); eqM(A, k, "resize to the same size"); A = toM(k); x = toC(v); x = A.columnCopy(c); for (int i = 0; i < n; i++) CHECK_EQ(x(i + 1), k[i][c - 1], "column"); A = toM(s); SymmetricMatrix S(1); A.convertToSymmetricMatrix(S); A = S; eqM(A, s, "A = symmetric A"); S = toS(s); S = S; eqS(S, s, "S = S"); REACH("end"); }
// far beyond the fully symbolic sizes: fixed values apart from a few free ones
CASE(big) { int k = sym_int("k", 0, 2); static const int R[] = {12, 17, 34}, C[] = {33, 18, 36}; int n = R[k], m = C[k]; Md a(n, Vd(m)), s(n, Vd(n)); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) a[i][j] = i * 100 + j; for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) s[i][j] = s[j][i] = i * 100 + j; int p = sym_int("at", 0, 1) ? n - 1 : n / 2; double x = sym_real("x"); Matrix A = toM(a); A(p + 1, p + 1) = x; a[p][p] = x; SymmetricMatrix S = toS(s), T; S(p + 1, p + 1) = x; s[p][p] = x; eqM(A, a, "elements"); eqS(S, s, "symmetric elements"); Matrix B(A); eqM(B, a, "copy"); Md t = tr(a); for (int i = 0; i < n; i++) eqR(A.rowCopy(i + 1), a[i], "row copy"); for (int j = 0; j < m; j++) eqC(A.columnCopy(j + 1), t[j], "column copy"); Md b; for (int i = 1; i < n - 1; i++) b.push_back(Vd(a[i].begin() + 2, a[i].end())); eqM(A.sub(2, n - 1, 3, m), b, "sub matrix"); CHECK(toM(s).convertToSymmetricMatrix(T) == 0, "conversion"); eqS(T, s, "conversion"); Matrix D; D = S; eqM(D, s, "symmetric to general"); Vd j = a[0]; j.insert(j.end(), t[0].begin(), t[0].end()); eqC(toC(a[0]).vectorAdd(toC(t[0])), j, "joined vectors"); eqR(toR(a[0]).vectorAdd(toR(t[0])), j, "joined vectors"); eqC(toC(a[1]).sub(2, m - 1), Vd(a[1].begin() + 1, a[1].end() - 1), "sub vector"); B.resize(n + 20, m - 2); for (int i = 0; i < n; i++) for (int q = 0; q < m - 2; q++) CHECK_EQ(B(i + 1, q + 1), a[i][q], "resize keeps the common block"); REACH("end"); }
