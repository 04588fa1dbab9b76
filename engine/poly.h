// Rational functions over Q in "atoms" (symbolic inputs, square roots,
// uninterpreted applications): the term language of the symbolic runtime.
#ifndef POLY_H
#define POLY_H
#include <gmpxx.h>
#include <vector>
#include <map>
#include <unordered_map>
#include <string>
#include <algorithm>
#include <cstdint>
#include <cmath>
#include <functional>

typedef std::vector<std::pair<uint16_t, uint16_t>> MonoV; // (atom, exponent), sorted by atom
typedef uint32_t Mono;
struct MonoHash { size_t operator()(const MonoV &v) const { size_t h = 1469598103u; for (auto &p : v) { h = h * 1000003u ^ (p.first * 64u + p.second); } return h; } };
struct TooBig {};

struct MonoTab {
  std::vector<MonoV> v; std::unordered_map<MonoV, Mono, MonoHash> idx; std::unordered_map<uint64_t, Mono> mulc;
  MonoTab() { get(MonoV()); }
  Mono get(const MonoV &m) { auto it = idx.find(m); if (it != idx.end()) return it->second; Mono id = v.size(); v.push_back(m); idx[m] = id; return id; }
  Mono mul(Mono a, Mono b) {
    if (!a) return b; if (!b) return a; if (a > b) std::swap(a, b);
    uint64_t k = ((uint64_t)a << 32) | b; auto it = mulc.find(k); if (it != mulc.end()) return it->second;
    const MonoV &x = v[a], &y = v[b]; MonoV r; size_t i = 0, j = 0;
    while (i < x.size() || j < y.size()) {
      if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
      else if (i == x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
      else { r.push_back({x[i].first, (uint16_t)(x[i].second + y[j].second)}); i++; j++; }
    }
    Mono m = get(r); mulc[k] = m; return m;
  }
  bool div(Mono a, Mono b, Mono &q) { // a / b
    const MonoV &x = v[a], &y = v[b]; MonoV r; size_t j = 0;
    for (size_t i = 0; i < x.size(); i++) {
      uint16_t e = x[i].second;
      if (j < y.size() && y[j].first < x[i].first) return false;
      if (j < y.size() && y[j].first == x[i].first) { if (y[j].second > e) return false; e -= y[j].second; j++; }
      if (e) r.push_back({x[i].first, e});
    }
    if (j < y.size()) return false;
    q = get(r); return true;
  }
  int cmp(Mono a, Mono b) { // lex, lower atom = more significant
    if (a == b) return 0; const MonoV &x = v[a], &y = v[b];
    for (size_t i = 0;; i++) {
      if (i == x.size()) return i == y.size() ? 0 : -1;
      if (i == y.size()) return 1;
      if (x[i].first != y[i].first) return x[i].first < y[i].first ? 1 : -1;
      if (x[i].second != y[i].second) return x[i].second > y[i].second ? 1 : -1;
    }
  }
};
extern MonoTab MT;

struct Poly {
  std::vector<std::pair<Mono, mpq_class>> t; // descending
  Poly() {}
  Poly(const mpq_class &c) { if (c != 0) t.push_back({0, c}); }
  static Poly atom(uint16_t a) { Poly p; p.t.push_back({MT.get(MonoV{{a, 1}}), 1}); return p; }
  bool zero() const { return t.empty(); }
  bool isConst() const { return t.empty() || (t.size() == 1 && t[0].first == 0); }
  mpq_class cst() const { return t.empty() ? mpq_class(0) : t[0].second; }
  bool operator==(const Poly &o) const { return t == o.t; }
  void scale(const mpq_class &c) { if (c == 0) { t.clear(); return; } if (c == 1) return; for (auto &x : t) x.second *= c; }
  size_t hash() const { size_t h = 7; for (auto &x : t) { h = h * 1000003u ^ x.first; h = h * 1000003u ^ mpz_get_ui(x.second.get_num_mpz_t()); } return h; }
};
inline Poly padd(const Poly &a, const Poly &b, int sb = 1) {
  Poly r; r.t.reserve(a.t.size() + b.t.size()); size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    int c = i == a.t.size() ? -1 : j == b.t.size() ? 1 : MT.cmp(a.t[i].first, b.t[j].first);
    if (c > 0) r.t.push_back(a.t[i++]);
    else if (c < 0) { r.t.push_back(b.t[j]); if (sb < 0) r.t.back().second = -r.t.back().second; j++; }
    else { mpq_class s = sb > 0 ? mpq_class(a.t[i].second + b.t[j].second) : mpq_class(a.t[i].second - b.t[j].second); if (s != 0) r.t.push_back({a.t[i].first, s}); i++; j++; }
  }
  return r;
}
extern size_t POLY_LIMIT;
inline Poly pmul(const Poly &a, const Poly &b) {
  if (a.zero() || b.zero()) return Poly();
  if (a.isConst()) { Poly r = b; r.scale(a.cst()); return r; }
  if (b.isConst()) { Poly r = a; r.scale(b.cst()); return r; }
  if (a.t.size() * b.t.size() > POLY_LIMIT * 40) throw TooBig();
  Poly r;
  if (a.t.size() == 1 || b.t.size() == 1) {
    const Poly &s = a.t.size() == 1 ? a : b, &l = a.t.size() == 1 ? b : a;
    for (auto &x : l.t) r.t.push_back({MT.mul(x.first, s.t[0].first), x.second * s.t[0].second});
    return r; // lex order is multiplicative
  }
  std::unordered_map<Mono, mpq_class> acc; acc.reserve(a.t.size() * 4);
  for (auto &x : a.t) for (auto &y : b.t) acc[MT.mul(x.first, y.first)] += x.second * y.second;
  for (auto &k : acc) if (k.second != 0) r.t.push_back(k);
  if (r.t.size() > POLY_LIMIT) throw TooBig();
  std::sort(r.t.begin(), r.t.end(), [](const std::pair<Mono, mpq_class> &p, const std::pair<Mono, mpq_class> &q) { return MT.cmp(p.first, q.first) > 0; });
  return r;
}
inline bool maxExps(const Poly &p, std::map<uint16_t, uint16_t> &m) { for (auto &x : p.t) for (auto &e : MT.v[x.first]) { auto &r = m[e.first]; r = std::max(r, e.second); } return true; }
// exact division
inline bool pdiv(const Poly &a, const Poly &b, Poly &q) {
  if (a.zero()) { q = Poly(); return true; }
  if (b.isConst()) { q = a; q.scale(1 / b.cst()); return true; }
  Mono m;
  if (!MT.div(a.t[0].first, b.t[0].first, m) || !MT.div(a.t.back().first, b.t.back().first, m)) return false;
  std::map<uint16_t, uint16_t> ea, eb; maxExps(a, ea); maxExps(b, eb);
  for (auto &e : eb) { auto it = ea.find(e.first); if (it == ea.end() || it->second < e.second) return false; }
  auto gt = [](Mono x, Mono y) { return MT.cmp(x, y) > 0; };
  std::map<Mono, mpq_class, decltype(gt)> rem(gt);
  for (auto &x : a.t) rem[x.first] = x.second;
  q = Poly(); size_t steps = 0;
  while (!rem.empty()) {
    auto it = rem.begin(); Mono lm;
    if (!MT.div(it->first, b.t[0].first, lm)) return false;
    if (++steps > 20000) return false;
    mpq_class c = it->second / b.t[0].second; q.t.push_back({lm, c});
    for (auto &y : b.t) {
      Mono k = MT.mul(lm, y.first); auto f = rem.find(k);
      if (f == rem.end()) { 
        // early exit when a produced term exceeds the dividend's degrees
        for (auto &e : MT.v[k]) { auto z = ea.find(e.first); if (z == ea.end() || z->second < e.second) return false; }
        rem[k] = -c * y.second; }
      else { f->second -= c * y.second; if (f->second == 0) rem.erase(f); }
    }
  }
  return true;
}
// interned monic factors
struct FacTab {
  std::vector<Poly> f; std::unordered_multimap<size_t, int> idx;
  int get(const Poly &p) { size_t h = p.hash(); auto r = idx.equal_range(h); for (auto i = r.first; i != r.second; ++i) if (f[i->second] == p) return i->second; int id = f.size(); f.push_back(p); idx.insert({h, id}); return id; }
};
extern FacTab FT;

struct Val {
  Poly num; std::vector<std::pair<int, int>> den; // (factor, exponent) sorted
  Val() {}
  Val(const mpq_class &c) : num(c) {}
  Val(const Poly &p) : num(p) {}
  bool isConst() const { return den.empty() && num.isConst(); }
  mpq_class cst() const { return num.cst(); }
  bool zero() const { return num.zero(); }
};
inline Poly ppow(const Poly &p, int e) { Poly r(mpq_class(1)); for (int i = 0; i < e; i++) r = pmul(r, p); return r; }
inline void cancel(Val &v) {
  if (v.num.zero()) { v.den.clear(); return; }
  std::vector<std::pair<int, int>> d;
  for (auto x : v.den) { Poly q; while (x.second > 0 && pdiv(v.num, FT.f[x.first], q)) { v.num = q; x.second--; } if (x.second) d.push_back(x); }
  v.den = d;
}
// adds the factors of p to a factor list; returns the constant pulled out
inline mpq_class factorInto(Poly p, std::map<int, int> &out, int mult) {
  mpq_class c = p.t[0].second; p.scale(1 / c);
  // monomial content
  MonoV g = MT.v[p.t[0].first];
  for (auto &x : p.t) { MonoV n; const MonoV &m = MT.v[x.first]; for (auto &e : g) for (auto &f : m) if (f.first == e.first) n.push_back({e.first, std::min(e.second, f.second)}); g = n; if (g.empty()) break; }
  if (!g.empty()) {
    Mono gm = MT.get(g); for (auto &x : p.t) { Mono q; MT.div(x.first, gm, q); x.first = q; }
    for (auto &e : g) out[FT.get(Poly::atom(e.first))] += e.second * mult;
  }
  if (!p.isConst()) {
    for (size_t i = 0; i < FT.f.size() && !p.isConst(); i++) { if (FT.f[i].t.size() < 2) continue; Poly q; while (!p.isConst() && pdiv(p, FT.f[i], q)) { out[i] += mult; p = q; } }
    if (!p.isConst()) { c *= mpq_class(1); mpq_class lc = p.t[0].second; if (lc != 1) { p.scale(1 / lc); c *= lc; } out[FT.get(p)] += mult; }
    else c *= p.cst();
  }
  return c;
}
Val normalize(Val v); // square-root reduction, in symrt.cpp
inline Val vadd(const Val &a, const Val &b, int s = 1) {
  if (a.zero()) { Val r = b; if (s < 0) r.num.scale(-1); return r; }
  if (b.zero()) return a;
  Val r;
  if (a.den == b.den) { r.num = padd(a.num, b.num, s); r.den = a.den; }
  else {
    std::map<int, int> l; for (auto &x : a.den) l[x.first] = x.second; for (auto &x : b.den) l[x.first] = std::max(l[x.first], x.second);
    Poly na = a.num, nb = b.num; std::map<int, int> da(a.den.begin(), a.den.end()), db(b.den.begin(), b.den.end());
    for (auto &x : l) { int ea = x.second - da[x.first], eb = x.second - db[x.first]; if (ea) na = pmul(na, ppow(FT.f[x.first], ea)); if (eb) nb = pmul(nb, ppow(FT.f[x.first], eb)); }
    r.num = padd(na, nb, s); r.den.assign(l.begin(), l.end());
  }
  cancel(r); return normalize(r);
}
inline Val vmul(const Val &a, const Val &b) {
  if (a.zero() || b.zero()) return Val();
  Val x = a, y = b, r; Val ta, tb;
  ta.num = a.num; ta.den = b.den; cancel(ta); tb.num = b.num; tb.den = a.den; cancel(tb);
  r.num = pmul(ta.num, tb.num); std::map<int, int> l; for (auto &p : ta.den) l[p.first] += p.second; for (auto &p : tb.den) l[p.first] += p.second;
  r.den.assign(l.begin(), l.end()); return normalize(r);
}
inline Val vinv(const Val &a) {
  Val r; std::map<int, int> l; mpq_class c = factorInto(a.num, l, 1);
  r.num = Poly(mpq_class(1 / c)); for (auto &x : a.den) { r.num = pmul(r.num, ppow(FT.f[x.first], x.second)); }
  for (auto &x : l) if (x.second) r.den.push_back(x);
  cancel(r); return normalize(r);
}
#endif
