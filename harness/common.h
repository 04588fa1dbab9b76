#ifndef COMMON_H
#define COMMON_H
#include "harness.h"
#include <string>
#include <vector>
#include <cmath>
#include <wrappers/matrix/matrix_wrapper.h>
#include <wrappers/matrix/vector_wrapper.h>
using MatrixWrapper::Matrix; using MatrixWrapper::SymmetricMatrix; using MatrixWrapper::ColumnVector; using MatrixWrapper::RowVector;
typedef std::vector<double> Vd; typedef std::vector<Vd> Md; // specification-side values, 0-based

static inline std::string nm(const char *p, int i) { return std::string(p) + "[" + std::to_string(i) + "]"; }
static inline std::string nm(const char *p, int i, int j) { return std::string(p) + "[" + std::to_string(i) + "," + std::to_string(j) + "]"; }
static inline Vd symV(const char *p, int n) { Vd v(n); for (int i = 0; i < n; i++) v[i] = sym_real(nm(p, i).c_str()); return v; }
static inline Md symM(const char *p, int r, int c) { Md m(r, Vd(c)); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m[i][j] = sym_real(nm(p, i, j).c_str()); return m; }
static inline Md symS(const char *p, int n) { Md m(n, Vd(n)); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) m[i][j] = m[j][i] = sym_real(nm(p, i, j).c_str()); return m; }
static inline Md mul(const Md &a, const Md &b) { Md r(a.size(), Vd(b[0].size(), 0.0)); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b[0].size(); j++) { double s = 0; for (size_t k = 0; k < b.size(); k++) s = s + a[i][k] * b[k][j]; r[i][j] = s; } return r; }
static inline Vd mul(const Md &a, const Vd &b) { Vd r(a.size(), 0.0); for (size_t i = 0; i < a.size(); i++) { double s = 0; for (size_t k = 0; k < b.size(); k++) s = s + a[i][k] * b[k]; r[i] = s; } return r; }
static inline Md tr(const Md &a) { Md r(a[0].size(), Vd(a.size())); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) r[j][i] = a[i][j]; return r; }
static inline Md add(const Md &a, const Md &b, double s = 1) { Md r = a; for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) r[i][j] = a[i][j] + s * b[i][j]; return r; }
static inline Vd add(const Vd &a, const Vd &b, double s = 1) { Vd r = a; for (size_t i = 0; i < a.size(); i++) r[i] = a[i] + s * b[i]; return r; }
static inline Md ident(int n) { Md r(n, Vd(n, 0.0)); for (int i = 0; i < n; i++) r[i][i] = 1; return r; }
// symmetric positive definite by construction: L L' with positive diagonal
static inline Md symSPD(const char *p, int n, double lo = 0.0) { Md L(n, Vd(n, 0.0)); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { L[i][j] = sym_real(nm(p, i, j).c_str()); if (i == j) { if (lo > 0) ASSUME_GE(L[i][j], lo); else ASSUME_GT(L[i][j], 0.0); } } return mul(L, tr(L)); }
static inline double det(const Md &a) { // cofactor expansion
  int n = a.size(); if (n == 1) return a[0][0]; double s = 0; for (int c = 0; c < n; c++) { Md m; for (int i = 1; i < n; i++) { Vd r; for (int j = 0; j < n; j++) if (j != c) r.push_back(a[i][j]); m.push_back(r); } s = s + (c % 2 ? -1.0 : 1.0) * a[0][c] * det(m); } return s; }
static inline Md adj(const Md &a) { int n = a.size(); Md r(n, Vd(n, 1.0)); if (n == 1) return r; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { Md m; for (int k = 0; k < n; k++) if (k != i) { Vd w; for (int l = 0; l < n; l++) if (l != j) w.push_back(a[k][l]); m.push_back(w); } r[j][i] = ((i + j) % 2 ? -1.0 : 1.0) * det(m); } return r; }
static inline Md inv(const Md &a) { double d = det(a); Md r = adj(a); for (auto &x : r) for (auto &y : x) y = y / d; return r; }
static inline double dot(const Vd &a, const Vd &b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s = s + a[i] * b[i]; return s; }

static inline Matrix toM(const Md &a) { Matrix m(a.size(), a[0].size()); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) m(i + 1, j + 1) = a[i][j]; return m; }
static inline SymmetricMatrix toS(const Md &a) { SymmetricMatrix m(a.size()); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a.size(); j++) m(i + 1, j + 1) = a[i][j]; return m; }
static inline ColumnVector toC(const Vd &a) { ColumnVector v(a.size()); for (size_t i = 0; i < a.size(); i++) v(i + 1) = a[i]; return v; }
static inline RowVector toR(const Vd &a) { RowVector v(a.size()); for (size_t i = 0; i < a.size(); i++) v(i + 1) = a[i]; return v; }
static inline void eqM(const Matrix &m, const Md &a, const char *w) { CHECK((size_t)m.rows() == a.size() && (size_t)m.columns() == a[0].size(), (std::string(w) + ": size").c_str()); if ((size_t)m.rows() == a.size() && (size_t)m.columns() == a[0].size()) for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) CHECK_EQ(m(i + 1, j + 1), a[i][j], w); }
static inline void eqS(const SymmetricMatrix &m, const Md &a, const char *w) { CHECK((size_t)m.rows() == a.size(), (std::string(w) + ": size").c_str()); if ((size_t)m.rows() == a.size()) for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a.size(); j++) CHECK_EQ(m(i + 1, j + 1), a[i][j], w); }
static inline void eqC(const ColumnVector &m, const Vd &a, const char *w) { CHECK((size_t)m.rows() == a.size(), (std::string(w) + ": size").c_str()); if ((size_t)m.rows() == a.size()) for (size_t i = 0; i < a.size(); i++) CHECK_EQ(m(i + 1), a[i], w); }
static inline void eqR(const RowVector &m, const Vd &a, const char *w) { CHECK((size_t)m.columns() == a.size(), (std::string(w) + ": size").c_str()); if ((size_t)m.columns() == a.size()) for (size_t i = 0; i < a.size(); i++) CHECK_EQ(m(i + 1), a[i], w); }
#endif
