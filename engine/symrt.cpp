// Symbolic runtime: doubles are exact reals; a symbolic value travels through
// the real program as a NaN whose payload names a term.  Comparisons fork the
// process (both sides explored when feasible); obligations are decided by z3.
#include "sym.h"
#include "poly.h"
#include "harness.h"
#include <z3++.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <set>
#include <new>
#include <atomic>
#include <typeinfo>
#include <cxxabi.h>
#include <malloc.h>

MonoTab MT; FacTab FT; size_t POLY_LIMIT = 60000;
typedef std::string S;

// ---------------------------------------------------------------- atoms
enum AK { VAR, SQRT, ABS, UF };
struct Atom { AK k; S name; Val arg, arg2; bool lo = false, hi = false; mpq_class l, h; bool input = false; int sgn = 0; /* 1: >=0, 2: >0 */ };
static std::vector<Atom> A;
static std::vector<Val> H; // handles
static const uint64_t TAG = 0x7FFC5A0000000000ull, TMASK = 0xFFFFFF0000000000ull;
static const uint64_t UNINIT = 0x7FFCA5A5A5A5A5A5ull;
static inline uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline double dbl(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static std::map<S, int> NameCount;

// ---------------------------------------------------------------- shared state
struct Shared {
  std::atomic<long> paths, queries, unsat, sat, unknown, obligations, discharged, cands, inconcl, assumednz, forks, maxdepth, infeasible, feasq, feasunk, draws, aborted_pre, ucands;
  std::atomic<double> fullat; std::atomic<double> solver_s; std::atomic<double> maxq; std::atomic<int> stop;
};
static Shared *SH;
static int OutFd = -1, TokR = -1, TokW = -1; static bool HaveToken = false;
static long MaxPaths = 20000; static double QTime = 20, FTime = 3; static double Deadline = 0;
static int Depth = 0; static bool InSolver = false;
static std::vector<pid_t> Kids;
static std::vector<std::pair<S, long>> IntInputs;
static double now() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + t.tv_usec * 1e-6; }
static S jesc(const S &s) { S r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static void emit(const S &s) { S l = s + "\n"; ssize_t r = write(OutFd, l.data(), l.size()); (void)r; }
static void addd(std::atomic<double> &a, double d) { double o = a.load(); while (!a.compare_exchange_weak(o, o + d)); }

[[noreturn]] static void finish(int code) {
  for (pid_t p : Kids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR); }
  if (HaveToken && TokW >= 0) { char c = 'x'; ssize_t r = write(TokW, &c, 1); (void)r; }
  _exit(code);
}
static void flushIdentities();
[[noreturn]] static void endpath() { flushIdentities(); SH->paths++; finish(0); }

// ---------------------------------------------------------------- constraints
enum Op { EQ, NE, GT, GE }; // p op 0
struct Con { Poly p; Op op; };
static std::vector<Con> PC;
struct PolyHash { size_t operator()(const Poly &p) const { return p.hash(); } };
static std::unordered_map<Poly, int, PolyHash> Sign; // monic poly -> bitmask 1:<0 2:=0 4:>0

static int flipmask(int m) { return ((m & 1) << 2) | (m & 2) | ((m & 4) >> 2); }
static int opmask(Op o) { return o == EQ ? 2 : o == NE ? 5 : o == GT ? 4 : 6; }
static int atomSign(int a) { // mask
  Atom &x = A[a]; if (x.sgn == 2) return 4; if (x.sgn == 1) return 6;
  int m = 7; if (x.lo && x.l > 0) m &= 4; else if (x.lo && x.l == 0) m &= 6; if (x.hi && x.h < 0) m &= 1; else if (x.hi && x.h == 0) m &= 3; return m;
}
static int knownAtom(int a) { int m = atomSign(a); auto it = Sign.find(Poly::atom(a)); if (it != Sign.end()) m &= it->second; return m; }
static int mulmask(int a, int b) { int r = 0; if (a & 2 || b & 2) r |= 2; if ((a & 4 && b & 4) || (a & 1 && b & 1)) r |= 4; if ((a & 4 && b & 1) || (a & 1 && b & 4)) r |= 1; return r; }
static int signMask(const Poly &p) { // what is syntactically known about sign of p
  if (p.zero()) return 2; if (p.isConst()) return p.cst() > 0 ? 4 : 1;
  int m = 7; Poly q = p; mpq_class lc = q.t[0].second; q.scale(1 / lc);
  auto it = Sign.find(q); if (it != Sign.end()) m &= lc > 0 ? it->second : flipmask(it->second);
  if (m == 1 || m == 2 || m == 4) return m;
  int neg = 0, pos = 0, strict = 0, bad = 0;
  for (auto &t : p.t) {
    int s = 4; for (auto &e : MT.v[t.first]) { int k = knownAtom(e.first); int c = e.second % 2 == 0 ? ((k & 2) ? 6 : 4) : k; s = mulmask(s, c); }
    if (t.second < 0) s = flipmask(s);
    if (s == 4) { pos = 1; strict |= 1; } else if (s == 6) pos = 1; else if (s == 1) { neg = 1; strict |= 2; } else if (s == 3) neg = 1; else if (s == 2) {} else { bad = 1; break; }
  }
  if (!bad) { if (!neg) m &= (strict & 1) ? 4 : 6; else if (!pos) m &= (strict & 2) ? 1 : 3; }
  return m ? m : 2;
}
static Poly signPoly(const Val &v) { // polynomial with the same sign as v (den != 0 holds on this path)
  Poly p = v.num; for (auto &f : v.den) if (f.second % 2) { int m = signMask(FT.f[f.first]); if (m == 4 || m == 6) continue; if (m == 1 || m == 3) { p.scale(-1); continue; } p = pmul(p, FT.f[f.first]); }
  return p;
}
static void addCon(const Poly &p, Op op) {
  PC.push_back({p, op}); if (p.zero() || p.isConst()) return;
  Poly q = p; mpq_class lc = q.t[0].second; q.scale(1 / lc); int m = opmask(op); if (lc < 0) m = flipmask(m);
  auto it = Sign.find(q); if (it == Sign.end()) Sign[q] = m; else it->second &= m;
  // monomial != 0 / > 0 tells about its atoms
  if (p.t.size() == 1 && (op == NE || op == GT)) for (auto &e : MT.v[p.t[0].first]) { Poly a = Poly::atom(e.first); int k = Sign.count(a) ? Sign[a] : 7; Sign[a] = k & 5 ? k & 5 : k; }
}

// ---------------------------------------------------------------- z3
static z3::context *Z; 
static z3::expr zq(const mpq_class &q) { return Z->real_val(q.get_str().c_str()); }
static z3::expr zatom(int a) { return Z->real_const(("a" + std::to_string(a)).c_str()); }
static z3::expr zpoly(const Poly &p) {
  if (p.zero()) return Z->real_val(0);
  z3::expr_vector s(*Z);
  for (auto &t : p.t) {
    z3::expr_vector f(*Z); if (t.second != 1 || t.first == 0) f.push_back(zq(t.second));
    for (auto &e : MT.v[t.first]) for (int i = 0; i < e.second; i++) f.push_back(zatom(e.first));
    if (f.size() == 1) s.push_back(f[0]);
    else { std::vector<Z3_ast> v; for (unsigned i = 0; i < f.size(); i++) v.push_back(f[i]); s.push_back(z3::expr(*Z, Z3_mk_mul(*Z, v.size(), v.data()))); }
  }
  if (s.size() == 1) return s[0];
  std::vector<Z3_ast> v; for (unsigned i = 0; i < s.size(); i++) v.push_back(s[i]); return z3::expr(*Z, Z3_mk_add(*Z, v.size(), v.data()));
}
static z3::expr zcon(const Con &c) { z3::expr e = zpoly(c.p), z = Z->real_val(0); switch (c.op) { case EQ: return e == z; case NE: return e != z; case GT: return e > z; default: return e >= z; } }
static void atomsOf(const Poly &p, std::set<int> &s) { for (auto &t : p.t) for (auto &e : MT.v[t.first]) s.insert(e.first); }
static void atomsOf(const Val &v, std::set<int> &s) { atomsOf(v.num, s); for (auto &f : v.den) atomsOf(FT.f[f.first], s); }
static void closure(std::set<int> &s) { std::vector<int> w(s.begin(), s.end()); while (!w.empty()) { int a = w.back(); w.pop_back(); std::set<int> n; if (A[a].k != VAR) { atomsOf(A[a].arg, n); atomsOf(A[a].arg2, n); } for (int b : n) if (s.insert(b).second) w.push_back(b); } }
static bool linear(const Poly &p) { for (auto &t : p.t) { int d = 0; for (auto &e : MT.v[t.first]) d += e.second; if (d > 1) return false; } return true; }

struct Query { std::vector<Con> cons, any; std::set<int> atoms; bool lin = true; };
static Query build(const std::vector<Con> &goal, bool slice = true) {
  Query q; q.cons = goal; std::set<int> s; for (auto &c : goal) atomsOf(c.p, s); closure(s);
  std::vector<char> used(PC.size(), 0); std::vector<std::set<int>> ca(PC.size());
  for (size_t i = 0; i < PC.size(); i++) { atomsOf(PC[i].p, ca[i]); closure(ca[i]); }
  bool ch = true; while (ch) { ch = false; for (size_t i = 0; i < PC.size(); i++) if (!used[i]) { bool hit = !slice || ca[i].empty(); if (!hit) for (int a : ca[i]) if (s.count(a)) { hit = true; break; } if (hit) { used[i] = 1; s.insert(ca[i].begin(), ca[i].end()); q.cons.push_back(PC[i]); ch = true; } } }
  q.atoms = s; for (auto &c : q.cons) if (!linear(c.p)) q.lin = false; for (int a : s) if (A[a].k != VAR) q.lin = false;
  return q;
}
static void background(const Query &q, std::vector<z3::expr> &out) {
  for (int a : q.atoms) {
    Atom &x = A[a]; z3::expr v = zatom(a), z0 = Z->real_val(0);
    if (x.lo) out.push_back(v >= zq(x.l)); if (x.hi) out.push_back(v <= zq(x.h));
    if (x.k == SQRT || x.k == ABS) { out.push_back(v >= z0);
      Poly d(mpq_class(1)); for (auto &f : x.arg.den) d = pmul(d, ppow(FT.f[f.first], f.second));
      out.push_back(v * v * zpoly(d) == zpoly(x.arg.num)); }
    else if (x.sgn == 2) out.push_back(v > z0); else if (x.sgn == 1) out.push_back(v >= z0);
    if (x.k == UF && x.name == "exp") { // e^t > 1 <=> t > 0 ; e^t >= 1 + t
      Poly sp = signPoly(x.arg); z3::expr t = zpoly(sp); out.push_back((t > z0) == (v > 1)); out.push_back((t == z0) == (v == 1));
      if (x.arg.isConst()) { double e = exp(x.arg.cst().get_d()); out.push_back(v > zq(mpq_class(e * (1 - 1e-9)))); out.push_back(v < zq(mpq_class(e * (1 + 1e-9)))); }
    }
    if (x.k == UF && x.name == "log") { Poly sp = signPoly(vadd(x.arg, Val(mpq_class(1)), -1)); z3::expr t = zpoly(sp); out.push_back((t > z0) == (v > 0)); out.push_back((t == z0) == (v == 0));
      if (x.arg.isConst() && x.arg.cst() > 0) { double e = log(x.arg.cst().get_d()), m = fabs(e) * 1e-9; out.push_back(v > zq(mpq_class(e - m))); out.push_back(v < zq(mpq_class(e + m))); } }
    if (x.k == UF && x.name == "pow" && x.arg2.isConst() && x.arg2.cst() > 0) { // x^c for a constant c > 0, x >= 0
      Poly sp = signPoly(x.arg); z3::expr t = zpoly(sp), t1 = zpoly(signPoly(vadd(x.arg, Val(mpq_class(1)), -1))); out.push_back(z3::implies(t > z0, v > z0)); out.push_back(z3::implies(t == z0, v == z0)); out.push_back(z3::implies(t >= z0 && t1 < z0, v < 1)); out.push_back(z3::implies(t1 == z0, v == 1)); out.push_back(z3::implies(t1 > z0, v > 1)); }
    if (x.k == UF && (x.name == "sin" || x.name == "cos")) { out.push_back(v <= 1); out.push_back(v >= -1); }
  }
  // functional consistency (and monotonicity for exp/log)
  std::vector<int> v(q.atoms.begin(), q.atoms.end());
  for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) {
    Atom &x = A[v[i]], &y = A[v[j]]; if (x.k != UF || y.k != UF || x.name != y.name) continue;
    try {
      Val d = vadd(x.arg, y.arg, -1); z3::expr s = zpoly(signPoly(d)), z0 = Z->real_val(0); z3::expr e = s == z0;
      Val d2 = vadd(x.arg2, y.arg2, -1); if (!d2.zero()) e = e && zpoly(signPoly(d2)) == z0;
      if (x.name == "exp" || x.name == "log") { out.push_back((s > z0) == (zatom(v[i]) > zatom(v[j]))); out.push_back((s == z0) == (zatom(v[i]) == zatom(v[j]))); }
      else out.push_back(z3::implies(e, zatom(v[i]) == zatom(v[j])));
    } catch (TooBig &) {}
  }
}
typedef std::map<int, S> Model; // atom -> rational or decimal
static S dumpSmt(const Query &q) {
  std::vector<z3::expr> b; background(q, b); S o = "(set-logic QF_NRA)\n";
  for (int a : q.atoms) o += "(declare-const a" + std::to_string(a) + " Real)\n";
  for (auto &e : b) o += "(assert " + e.to_string() + ")\n"; for (auto &c : q.cons) o += "(assert " + zcon(c).to_string() + ")\n";
  return o + "(check-sat)\n";
}
static const char *DumpDir = 0; static long DumpMax = 0;
static void maybeDump(const Query &q, int r) {
  if (!DumpDir) return; static long n = 0; if (n >= DumpMax) return; n++;
  char fn[512]; snprintf(fn, sizeof fn, "%s/q_%d_%ld_%s.smt2", DumpDir, (int)getpid(), n, r == 0 ? "unsat" : r == 1 ? "sat" : "unknown");
  FILE *f = fopen(fn, "w"); if (f) { S s = dumpSmt(q); fwrite(s.data(), 1, s.size(), f); fclose(f); }
}
// 0 unsat, 1 sat, 2 unknown
static void solve(const Query &q, S &out, bool wantModel, unsigned rlimit) {
  std::vector<z3::expr> b; background(q, b);
  z3::solver s = q.lin ? z3::solver(*Z, "QF_LRA") : (z3::tactic(*Z, "simplify") & z3::tactic(*Z, "qfnra-nlsat")).mk_solver();
  if (rlimit) { z3::params pp(*Z); pp.set("rlimit", rlimit); s.set(pp); }
  for (auto &e : b) s.add(e); for (auto &c : q.cons) s.add(zcon(c)); if (!q.any.empty()) { z3::expr_vector v(*Z); for (auto &c : q.any) v.push_back(zcon(c)); s.add(z3::mk_or(v)); }
  z3::check_result r = s.check();
  if (r == z3::unsat) out = "n\n";
  else if (r == z3::sat) {
    out = "s\n"; if (wantModel) { z3::model m = s.get_model(); for (int a : q.atoms) { z3::expr v = m.eval(zatom(a), true); S d; if (v.is_numeral()) d = v.is_algebraic() ? v.get_decimal_string(25) : v.to_string(); if (v.is_numeral() && !v.is_algebraic()) { z3::expr nu = v.numerator(), de = v.denominator(); d = S(Z3_get_numeral_string(*Z, nu)) + "/" + S(Z3_get_numeral_string(*Z, de)); } out += std::to_string(a) + " " + d + "\n"; } }
  }
}
static int parseRes(const S &in, Model *mod) {
  int res = 2; if (!in.empty()) { if (in[0] == 'n') res = 0; else if (in[0] == 's') res = 1; }
  if (res == 1 && mod) { size_t p = in.find('\n') + 1; while (p < in.size()) { size_t e = in.find('\n', p); if (e == S::npos) break; S l = in.substr(p, e - p); size_t sp = l.find(' '); if (sp != S::npos) (*mod)[atoi(l.c_str())] = l.substr(sp + 1); p = e + 1; } }
  if (res == 0) SH->unsat++; else if (res == 1) SH->sat++; else SH->unknown++;
  return res;
}
static bool smallQuery(const Query &q) { // cheap enough to decide without a separate, killable process
  if (q.atoms.size() > (q.lin ? 24u : 3u)) return false; size_t terms = 0; for (auto &c : q.cons) { terms += c.p.t.size(); if (!q.lin) for (auto &t : c.p.t) { int d = 0; for (auto &e : MT.v[t.first]) d += e.second; if (d > 4) return false; } } for (int a : q.atoms) if (A[a].k != VAR) return false; return terms <= (q.lin ? 400u : 60u) && q.any.empty(); }
static int runz3(const Query &q, double tmo, Model *mod) {
  double t0 = now(); SH->queries++;
  if (smallQuery(q)) { S out = "u\n"; try { solve(q, out, mod != 0, 500000); } catch (...) { out = "u\n"; }
    if (out[0] != 'u') { double dt = now() - t0; addd(SH->solver_s, dt); if (dt > SH->maxq) SH->maxq = dt; int r = parseRes(out, mod); maybeDump(q, r); return r; } }
  int fd[2]; if (pipe(fd)) return 2; fflush(0);
  pid_t pid = fork();
  if (pid < 0) { close(fd[0]); close(fd[1]); return 2; }
  if (pid == 0) {
    InSolver = true; signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); close(fd[0]); alarm((unsigned)tmo + 2);
    S out = "u\n";
    try { solve(q, out, mod != 0, 0);
    } catch (z3::exception &e) { out = "u\n"; } catch (...) {}
    size_t o = 0; while (o < out.size()) { ssize_t w = write(fd[1], out.data() + o, out.size() - o); if (w <= 0) break; o += w; }
    _exit(0);
  }
  close(fd[1]); S in; bool to = false;
  for (;;) {
    double left = t0 + tmo - now(); if (left <= 0) { to = true; break; }
    struct pollfd pf = {fd[0], POLLIN, 0}; int r = poll(&pf, 1, (int)(left * 1000) + 1); if (r < 0 && errno == EINTR) continue; if (r == 0) { to = true; break; }
    char buf[4096]; ssize_t n = read(fd[0], buf, sizeof buf); if (n <= 0) break; in.append(buf, n);
  }
  close(fd[0]); if (to) kill(pid, SIGKILL); int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
  double dt = now() - t0; addd(SH->solver_s, dt); if (dt > SH->maxq) SH->maxq = dt;
  if (to) in.clear(); int res = parseRes(in, mod);
  maybeDump(q, res);
  return res;
}
static std::vector<Con> IdentGoals;
static void flushIdentities() { // every identity of this path in one query: some of them fails?
  if (IdentGoals.empty() || InSolver) return; Query q; q.any = IdentGoals; long n = IdentGoals.size(); IdentGoals.clear();
  S out = "u\n"; double t0 = now(); SH->queries++; try { solve(q, out, false, 0); } catch (...) {} addd(SH->solver_s, now() - t0); if (parseRes(out, 0) == 0) SH->discharged += n; else { SH->inconcl += n; emit("{\"kind\":\"unknown\",\"what\":\"identity batch\"}"); } }
// ---------------------------------------------------------------- numeric evaluation (model search, model completion)
static double evalP(const Poly &p, const std::vector<double> &x) { double s = 0; for (auto &t : p.t) { double m = t.second.get_d(); for (auto &e : MT.v[t.first]) m *= std::pow(x[e.first], e.second); s += m; } return s; }
static double evalV(const Val &v, const std::vector<double> &x) { double d = 1; for (auto &f : v.den) d *= std::pow(evalP(FT.f[f.first], x), f.second); return evalP(v.num, x) / d; }
static void complete(std::vector<double> &x) { for (size_t a = 0; a < A.size(); a++) { Atom &t = A[a]; if (t.k == VAR) continue; double g = evalV(t.arg, x); if (t.k == SQRT || t.k == ABS) x[a] = sqrt(g); else if (t.name == "exp") x[a] = exp(g); else if (t.name == "log") x[a] = log(g); else if (t.name == "sin") x[a] = sin(g); else if (t.name == "cos") x[a] = cos(g); else if (t.name == "tan") x[a] = tan(g); else if (t.name == "atan") x[a] = atan(g); else if (t.name == "pow") x[a] = std::pow(g, evalV(t.arg2, x)); else if (t.name == "atan2") x[a] = atan2(g, evalV(t.arg2, x)); else x[a] = 0; } }
static bool holds(const Con &c, const std::vector<double> &x, double margin) { double v = evalP(c.p, x); switch (c.op) { case EQ: return fabs(v) < 1e-12; case NE: return fabs(v) > margin; case GT: return v > margin; default: return v > margin; } }
static uint64_t rs = 88172645463325252ull; static double rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (rs >> 11) * (1.0 / 9007199254740992.0); }
static bool randomPoint(const std::vector<Con> &cons, std::vector<double> &best, int tries) {
  std::vector<double> x(A.size());
  for (int t = 0; t < tries; t++) {
    for (size_t a = 0; a < A.size(); a++) { if (A[a].k != VAR) continue; double l = A[a].lo ? A[a].l.get_d() : -4, h = A[a].hi ? A[a].h.get_d() : 4; if (A[a].lo && !A[a].hi) h = l + 4; if (A[a].hi && !A[a].lo) l = h - 4;
      double v = l + (h - l) * rnd(); double g = (t % 3 == 0) ? 4 : (t % 3 == 1) ? 16 : 1024; v = std::floor(v * g + .5) / g; if (v < l || v > h) v = (l + h) / 2; x[a] = v; }
    complete(x); bool ok = true; for (auto &c : cons) if (!holds(c, x, 1e-6)) { ok = false; break; } if (ok) for (auto &c : PC) if (!holds(c, x, 1e-6)) { ok = false; break; }
    if (ok) { best = x; return true; }
  }
  return false;
}
static S q2s(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
static S inputsJson(const Model *m, const std::vector<double> *pt) {
  S o = "{"; bool f = true;
  for (size_t a = 0; a < A.size(); a++) { if (!A[a].input) continue; S v; if (pt) v = q2s((*pt)[a]); else { auto it = m->find(a); if (it != m->end()) v = it->second; else { double d = 0; if (A[a].lo && A[a].l > 0) d = A[a].l.get_d(); if (A[a].lo && A[a].hi) d = (A[a].l.get_d() + A[a].h.get_d()) / 2; else if (A[a].hi && A[a].h < 0) d = A[a].h.get_d(); v = q2s(d); } } if (!f) o += ", "; f = false; o += "\"" + jesc(A[a].name) + "\": \"" + v + "\""; }
  for (auto &p : IntInputs) { if (!f) o += ", "; f = false; o += "\"" + jesc(p.first) + "\": \"" + std::to_string(p.second) + "\""; }
  return o + "}";
}
static int PathCands = 0;
static void candidate(const S &what, const S &inputs) { SH->cands++; PathCands++; emit("{\"kind\":\"candidate\",\"what\":\"" + jesc(what) + "\",\"inputs\":" + inputs + "}"); }
static Con fixCon(int a, const mpq_class &v) { return {padd(Poly::atom(a), Poly(v), -1), EQ}; }
// produce the friendliest model we can for goal on this path and report it
static void reportSat(const S &what, const std::vector<Con> &goal, const std::vector<std::vector<Con>> &robust, Model &m0) {
  std::vector<double> pt;
  for (auto &r : robust) if (randomPoint(r, pt, 3000)) { // certify with the solver
      std::vector<Con> g = goal; for (size_t a = 0; a < A.size(); a++) if (A[a].k == VAR && A[a].input) g.push_back(fixCon(a, mpq_class(pt[a]))); Model mm; Query q = build(g, false);
      if (runz3(q, QTime, &mm) == 1) { candidate(what, inputsJson(&mm, 0)); return; }
  }
  std::vector<Con> box; for (size_t a = 0; a < A.size(); a++) if (A[a].k == VAR && A[a].input && !(A[a].lo && A[a].hi)) { box.push_back({padd(Poly::atom(a), Poly(mpq_class(16))), GE}); box.push_back({padd(Poly(mpq_class(16)), Poly::atom(a), -1), GE}); }
  Model m = m0; bool got = false; std::vector<Con> cur = goal;
  for (auto &r : robust) { std::vector<Con> g = goal; g.insert(g.end(), r.begin(), r.end()); g.insert(g.end(), box.begin(), box.end()); Model mm; if (runz3(build(g, false), QTime / 2, &mm) == 1) { m = mm; got = true; cur = g; break; } }
  if (!got) { Model mm; if (runz3(build(goal, false), QTime, &mm) == 1) m = mm; }
  // make the values dyadic, one input at a time, so that they are exact doubles
  double tend = now() + QTime;
  for (size_t a = 0; a < A.size() && now() < tend; a++) {
    if (A[a].k != VAR || !A[a].input) continue; auto it = m.find(a); double v = 0; if (it != m.end()) { size_t sl = it->second.find('/'); v = sl == S::npos ? atof(it->second.c_str()) : atof(it->second.c_str()) / atof(it->second.c_str() + sl + 1); }
    double cand[] = {std::floor(v + .5), std::floor(v * 4 + .5) / 4, std::floor(v * 1024 + .5) / 1024, v};
    for (double c : cand) { if (!std::isfinite(c)) continue; std::vector<Con> g = cur; g.push_back(fixCon(a, mpq_class(c))); Model mm; if (runz3(build(g, false), 2, &mm) == 1) { cur = g; m = mm; break; } }
  }
  candidate(what, inputsJson(&m, 0));
}
// ---------------------------------------------------------------- exploration
static bool forkChild() { // true in the child
  if (SH->stop.load() || now() > Deadline) { SH->stop = 1; }
  if (SH->paths.load() > MaxPaths) { SH->stop = 1; }
  if (SH->cands.load() >= 40) { double t = SH->fullat.load(); if (t == 0) SH->fullat = now(); else if (now() > t + 30) SH->stop = 1; } // enough counterexamples to try
  if (SH->stop.load()) { emit("{\"kind\":\"limit\"}"); endpath(); }
  Depth++; if (Depth > SH->maxdepth) SH->maxdepth = Depth; SH->forks++;
  // reap
  for (size_t i = 0; i < Kids.size();) { int st; if (waitpid(Kids[i], &st, WNOHANG) == Kids[i]) { Kids.erase(Kids.begin() + i); } else i++; }
  bool tok = false; if (TokR >= 0) { char c; if (read(TokR, &c, 1) == 1) tok = true; }
  fflush(0); pid_t p = fork();
  if (p < 0) { perror("fork"); emit("{\"kind\":\"limit\"}"); endpath(); }
  if (p == 0) { Kids.clear(); HaveToken = tok; PathCands = 0; IdentGoals.clear(); return true; }
  if (tok) Kids.push_back(p); else { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR); }
  return false;
}
static int feasible(const Con &c) {
  if (c.p.zero()) return (c.op == EQ || c.op == GE) ? 1 : 0; if (c.p.isConst()) { mpq_class v = c.p.cst(); return (c.op == NE || ((c.op == GT || c.op == GE) && v > 0)) ? 1 : 0; }
  int m = signMask(c.p); if (!(m & opmask(c.op))) return 0;
  SH->feasq++;
  // cheap witness first: a concrete point on this path is a proof of feasibility
  std::vector<double> pt; bool eqpc = c.op == EQ; for (auto &k : PC) if (k.op == EQ) eqpc = true;
  if (!eqpc && randomPoint({c}, pt, 150)) return 1;
  int r = runz3(build({c}), FTime, 0); if (r == 2) { SH->feasunk++; return 1; } return r;
}
static bool decide(const Poly &p, Op op, Op nop, bool negp) { // is p op 0 ?  (not: (+-p) nop 0)
  if (p.zero()) return op == EQ || op == GE; if (p.isConst()) { mpq_class v = p.cst(); return op == NE || ((op == GT || op == GE) && v > 0); }
  int m = signMask(p); int om = opmask(op); if ((m & om) == m) return true; if ((m & om) == 0) return false;
  Poly n = p; if (negp) n.scale(-1);
  Con t = {p, op}, f = {n, nop};
  if (getenv("SYM_TRACEF")) { FILE *tf = fopen(getenv("SYM_TRACEF"), "a"); fprintf(tf, "fork on:"); for (auto &x : p.t) { fprintf(tf, " %+.4g", x.second.get_d()); for (auto &e : MT.v[x.first]) { Atom &a = A[e.first]; fprintf(tf, "*[%d k%d %s s%d]^%d", e.first, (int)a.k, a.name.c_str(), a.sgn, e.second); } } fprintf(tf, "\n"); fclose(tf); }
  int ft = feasible(t); if (!ft) { addCon(f.p, f.op); return false; } int ff = feasible(f); if (!ff) { addCon(t.p, t.op); return true; }
  if (forkChild()) { addCon(t.p, t.op); return true; } addCon(f.p, f.op); return false;
}
static bool decide(const Poly &p, Op op) { switch (op) { case EQ: return decide(p, EQ, NE, false); case NE: return decide(p, NE, EQ, false); case GT: return decide(p, GT, GE, true); default: return decide(p, GE, GT, true); } }

// ---------------------------------------------------------------- values
static const int BOT = 0; // handle 0: undefined (division by zero, sqrt of a negative, ...)
static int mk(const Val &v) { H.push_back(v); return (int)H.size() - 1; }
static double box(int h) { return dbl(TAG | (uint64_t)h); }
static inline bool boxed(double d) { return (bits(d) & TMASK) == TAG; }
static int newAtom(AK k, const S &n) { if (A.size() > 60000) throw TooBig(); Atom a; a.k = k; a.name = n; A.push_back(a); return A.size() - 1; }
// coefficient rounding (sym_numeric(2)): coefficients of symbolic terms are kept to double precision, as if the symbols were powers of two
static bool Rounding = false;
static mpq_class roundQ(const mpq_class &c) { double d = c.get_d(); if (!std::isfinite(d)) return c; mpq_class q(d); if (q == c) return c; double e = std::nextafter(d, c > q ? INFINITY : -INFINITY); mpq_class r(e); return abs(r - c) < abs(c - q) ? r : q; }
static double fromVal(const Val &v0) {
  Val vr; if (Rounding) { vr = v0; for (auto &x : vr.num.t) x.second = roundQ(x.second); } const Val &v = Rounding ? vr : v0;
  if (v.isConst()) { mpq_class c = v.cst(); double d = c.get_d(); if (mpq_class(d) == c) return d == 0 ? 0.0 : d; }
  return box(mk(v));
}
static S uniq(const char *n) { int k = NameCount[n]++; return k ? S(n) + "#" + std::to_string(k) : S(n); }
static bool toVal(double d, Val &v) { // false: undefined
  uint64_t u = bits(d);
  if ((u & TMASK) == TAG) { int h = u & 0xFFFFFFFFFFull; if (h == BOT || h >= (int)H.size()) return false; v = H[h]; return true; }
  if (u == UNINIT || u == ~0ull) { int a = newAtom(VAR, uniq("uninitialised")); v = Val(Poly::atom(a)); emit("{\"kind\":\"uninit\"}"); return true; }
  if (!std::isfinite(d)) return false;
  v = Val(mpq_class(d)); return true;
}
static double bot() { return box(BOT); }
[[noreturn]] static void blowup(const char *w) { SH->inconcl++; emit(S("{\"kind\":\"blowup\",\"what\":\"") + w + "\"}"); endpath(); }
#define GUARD(...) try { __VA_ARGS__ } catch (TooBig &) { blowup(__func__); }

// sqrt reduction
static Val powVal(const Val &v, int e) { Val r(mpq_class(1)); for (int i = 0; i < e; i++) r = vmul(r, v); return r; }
Val normalize(Val v) {
  for (int guard = 0; guard < 200; guard++) {
    int s = -1; for (auto &t : v.num.t) for (auto &e : MT.v[t.first]) if (e.second >= 2 && (A[e.first].k == SQRT || A[e.first].k == ABS)) s = std::max(s, (int)e.first);
    if (s >= 0) {
      std::map<int, Poly> by; // exponent/2 -> coefficient poly
      for (auto &t : v.num.t) { int e = 0; MonoV m; for (auto &x : MT.v[t.first]) { if (x.first == s) { e = x.second; if (e & 1) m.push_back({x.first, 1}); } else m.push_back(x); } Poly q; q.t.push_back({MT.get(m), t.second}); by[e / 2] = padd(by[e / 2], q); }
      Val r; for (auto &k : by) { Val c(k.second); c.den = v.den; cancel(c); Val pw = powVal(A[s].arg, k.first); Val pr; // plain product without recursion into this loop on s
        pr = vmul(c, pw); r = vadd(r, pr); }
      v = r; continue;
    }
    // denominators
    int fi = -1, sa = -1; for (size_t i = 0; i < v.den.size() && fi < 0; i++) { if (FT.f[v.den[i].first].t.size() > 1) { int m = signMask(FT.f[v.den[i].first]); if (m == 4 || m == 1) continue; } std::set<int> at; atomsOf(FT.f[v.den[i].first], at); for (int a : at) if (A[a].k == SQRT || (A[a].k == ABS && FT.f[v.den[i].first].t.size() == 1)) { fi = i; sa = std::max(sa, a); } }
    if (fi >= 0) {
      Poly f = FT.f[v.den[fi].first], P, Q; int e = v.den[fi].second;
      for (auto &t : f.t) { MonoV m; bool has = false; for (auto &x : MT.v[t.first]) { if (x.first == sa) has = true; else m.push_back(x); } Poly q; q.t.push_back({MT.get(m), t.second}); if (has) Q = padd(Q, q); else P = padd(P, q); }
      Val rest; rest.num = v.num; rest.den = v.den; rest.den.erase(rest.den.begin() + fi);
      // 1/(P+Q s) = (P - Q s)/(P^2 - Q^2 arg)
      Val conj(padd(P, pmul(Q, Poly::atom(sa)), -1)); Val d = vadd(vmul(Val(P), Val(P)), vmul(vmul(Val(Q), Val(Q)), A[sa].arg), -1);
      if (d.zero()) return v;
      Val inv = vmul(conj, vinv(d)); Val r = rest; for (int i = 0; i < e; i++) r = vmul(r, inv);
      v = r; continue;
    }
    break;
  }
  return v;
}
static bool sqrtQ(const mpq_class &c, mpq_class &r) { if (c < 0) return false; mpz_class n = sqrt(c.get_num()), d = sqrt(c.get_den()); if (n * n == c.get_num() && d * d == c.get_den()) { r = mpq_class(n, d); r.canonicalize(); return true; } return false; }
static bool sameVal(const Val &a, const Val &b) { return vadd(a, b, -1).zero(); }
static Val absVal(const Val &v);
static Val sqrtVal(const Val &v) { // v known >= 0
  if (v.zero()) return Val();
  // perfect-square monomial over even denominators
  if (v.num.t.size() == 1) {
    mpq_class c; bool ok = sqrtQ(v.num.t[0].second, c); if (!ok && Rounding && v.num.t[0].second > 0) { ok = true; c = mpq_class(sqrt(v.num.t[0].second.get_d())); } for (auto &e : MT.v[v.num.t[0].first]) if (e.second % 2) ok = false; for (auto &f : v.den) if (f.second % 2) ok = false;
    if (ok) { Val r(c); for (auto &e : MT.v[v.num.t[0].first]) { Val a = absVal(Val(Poly::atom(e.first))); r = vmul(r, powVal(a, e.second / 2)); } for (auto &f : v.den) r = vmul(r, vinv(powVal(absVal(Val(FT.f[f.first])), f.second / 2))); return r; }
  }
  // pull the rational square out so that equal radicands share an atom
  for (size_t a = 0; a < A.size(); a++) if (A[a].k == SQRT) {
      if (sameVal(A[a].arg, v)) return Val(Poly::atom(a));
      // v = c^2 * arg ?
      if (A[a].arg.den == v.den && A[a].arg.num.t.size() == v.num.t.size() && A[a].arg.num.t[0].first == v.num.t[0].first) { mpq_class k = v.num.t[0].second / A[a].arg.num.t[0].second, r; Val w = A[a].arg; w.num.scale(k); if (sqrtQ(k, r) && sameVal(w, v)) { Val o(Poly::atom(a)); o.num.scale(r); return o; } }
  }
  int a = newAtom(SQRT, "sqrt"); A[a].arg = v; A[a].sgn = 1; if (signMask(signPoly(v)) == 4) A[a].sgn = 2; return Val(Poly::atom(a));
}
static Val absVal(const Val &v) {
  if (v.isConst()) { mpq_class c = v.cst(); return Val(c < 0 ? mpq_class(-c) : c); }
  int m = signMask(signPoly(v)); if (!(m & 1)) return v; if (!(m & 4)) { Val r = v; r.num.scale(-1); return r; }
  for (size_t a = 0; a < A.size(); a++) if (A[a].k == ABS && (sameVal(A[a].arg2, v) || vadd(A[a].arg2, v).zero())) return Val(Poly::atom(a));
  int a = newAtom(ABS, "abs"); A[a].arg = vmul(v, v); A[a].arg2 = v; A[a].sgn = 1; return Val(Poly::atom(a));
}
static Val ufVal(const S &n, const Val &x, const Val &y = Val()) {
  for (size_t a = 0; a < A.size(); a++) if (A[a].k == UF && A[a].name == n && sameVal(A[a].arg, x) && sameVal(A[a].arg2, y)) return Val(Poly::atom(a));
  int a = newAtom(UF, n); A[a].arg = x; A[a].arg2 = y; if (n == "exp") A[a].sgn = 2; return Val(Poly::atom(a));
}
static Val expVal(const Val &x) {
  if (x.zero()) return Val(mpq_class(1));
  // sign-normalise so that exp(-t) is 1/exp(t)
  if (x.num.t[0].second < 0) { Val n = x; n.num.scale(-1); return vinv(ufVal("exp", n)); }
  return ufVal("exp", x);
}
// compare abs/sqrt atoms by their squares
static Poly cmpPoly(const Val &d) {
  Poly p = signPoly(d);
  if (p.t.size() == 2) {
    // c1*s - c2*r with s,r nonnegative roots or nonnegative constants
    Val sq[2]; bool ok = true; mpq_class c[2];
    for (int i = 0; i < 2 && ok; i++) { c[i] = p.t[i].second; const MonoV &m = MT.v[p.t[i].first]; if (m.empty()) sq[i] = Val(mpq_class(1)); else if (m.size() == 1 && m[0].second == 1 && (A[m[0].first].k == SQRT || A[m[0].first].k == ABS)) sq[i] = A[m[0].first].arg; else ok = false; }
    if (ok && ((c[0] > 0) != (c[1] > 0))) { for (int i = 0; i < 2; i++) { mpq_class k = c[i] * c[i]; if (c[i] < 0) k = -k; sq[i].num.scale(k); } return signPoly(vadd(sq[0], sq[1])); }
  }
  return p;
}
// ---------------------------------------------------------------- operations
extern "C" {
// numeric mode: what is computed from concrete values only stays double arithmetic, rounding included
static bool Numeric = false;
static inline bool num2(double a, double b) { return Numeric && std::isfinite(a) && std::isfinite(b); }
void sym_numeric(int on) { Numeric = on; Rounding = on == 2; }
#define BIN(NAME, NATIVE, EXPR) double NAME(double a, double b) { if (num2(a, b)) return NATIVE; GUARD( Val x, y; if (!toVal(a, x) || !toVal(b, y)) return bot(); return fromVal(EXPR); ) }
BIN(sym_add, a + b, vadd(x, y))
BIN(sym_sub, a - b, vadd(x, y, -1))
BIN(sym_mul, a * b, vmul(x, y))
double sym_neg(double a) { GUARD( Val x; if (!toVal(a, x)) return bot(); x.num.scale(-1); return fromVal(x); ) }
double sym_div(double a, double b) {
  if (num2(a, b) && b != 0) return a / b;
  GUARD(
    Val x, y; if (!toVal(a, x) || !toVal(b, y)) return bot();
    if (y.zero()) return bot();
    if (!y.isConst()) {
      int m = signMask(signPoly(y));
      if (m & 2) { Con z = {y.num, EQ}; 
        int r = runz3(build({z}), FTime, 0); if (r == 2) { SH->assumednz++; addCon(y.num, NE); } else if (r == 0) addCon(y.num, NE);
        else { int r2 = feasible({y.num, NE}); if (!r2) return bot(); if (forkChild()) { addCon(y.num, EQ); return bot(); } addCon(y.num, NE); } }
    }
    return fromVal(vmul(x, vinv(y)));
  )
}
// LLVM predicates: 1 oeq 2 ogt 3 oge 4 olt 5 ole 6 one 7 ord 8 uno 9 ueq 10 ugt 11 uge 12 ult 13 ule 14 une 0 false 15 true
int sym_fcmp(int pred, double a, double b) {
  if (pred == 0) return 0; if (pred == 15) return 1;
  GUARD(
    Val x, y; if (!toVal(a, x) || !toVal(b, y)) {
      if (!boxed(a) && !boxed(b) && bits(a) != UNINIT && bits(b) != UNINIT) { // concrete infinities
        bool un = std::isnan(a) || std::isnan(b); switch (pred & 7) { case 1: return un ? pred >= 8 : a == b; case 2: return un ? pred >= 8 : a > b; case 3: return un ? pred >= 8 : a >= b; case 4: return un ? pred >= 8 : a < b; case 5: return un ? pred >= 8 : a <= b; case 6: return un ? pred >= 8 : a != b; case 7: return !un; default: return un; } }
      // finite symbolic against a concrete infinity
      auto inf = [](double d) { return !boxed(d) && std::isinf(d); };
      if (inf(a) != inf(b)) { double p = inf(a) ? a : 0, q = inf(b) ? b : 0; Val t; if (toVal(inf(a) ? b : a, t)) switch (pred & 7) { case 1: return 0; case 2: return p > q; case 3: return p >= q; case 4: return p < q; case 5: return p <= q; case 6: return 1; case 7: return 1; default: return 0; } }
      return pred >= 8 ? 1 : 0;
    }
    if (pred == 7) return 1; if (pred == 8) return 0;
    Val d = vadd(x, y, -1); Poly p; int k = pred & 7;
    if (k == 1) return decide(d.num, EQ); if (k == 6) return decide(d.num, NE);
    p = cmpPoly(d); Poly n = p; n.scale(-1);
    if (k == 2) return decide(p, GT); if (k == 3) return decide(p, GE); if (k == 4) return decide(n, GT); return decide(n, GE);
  )
}
double sym_fabs(double a) { GUARD( Val x; if (!toVal(a, x)) return boxed(a) ? bot() : fabs(a); return fromVal(absVal(x)); ) }
double sym_sqrt(double a) {
  if (num2(a, a) && a >= 0) return sqrt(a);
  GUARD( Val x; if (!toVal(a, x)) return bot(); if (x.isConst()) { if (x.cst() < 0) return bot(); mpq_class r; if (sqrtQ(x.cst(), r)) return fromVal(Val(r)); return fromVal(sqrtVal(x)); }
    Poly p = signPoly(x); if (!decide(p, GE)) return bot(); return fromVal(sqrtVal(x)); )
}
double sym_exp(double a) { if (num2(a, a)) return exp(a); GUARD( Val x; if (!toVal(a, x)) { if (!boxed(a)) return exp(a); return bot(); } return fromVal(expVal(x)); ) }
double sym_log(double a) { if (num2(a, a) && a > 0) return log(a); GUARD( Val x; if (!toVal(a, x)) return bot(); if (x.isConst()) { if (x.cst() <= 0) return bot(); if (x.cst() == 1) return 0.0; return fromVal(ufVal("log", x)); } if (!decide(signPoly(x), GT)) return bot();
   if (x.den.empty() && x.num.t.size() == 1) { auto &m = MT.v[x.num.t[0].first]; if (x.num.t[0].second == 1 && m.size() == 1 && m[0].second == 1 && A[m[0].first].k == UF && A[m[0].first].name == "exp") return fromVal(A[m[0].first].arg); }
   return fromVal(ufVal("log", x)); ) }
double sym_powi(double a, int n) { GUARD( Val x; if (!toVal(a, x)) return bot(); if (n < 0) { double r = sym_powi(a, -n); return sym_div(1.0, r); } return fromVal(powVal(x, n)); ) }
double sym_pow(double a, double b) {
  if (num2(a, b) && a >= 0) return pow(a, b);
  GUARD( Val x, y; if (!toVal(a, x) || !toVal(b, y)) return bot();
    if (y.isConst()) { mpq_class c = y.cst(); if (c.get_den() == 1 && abs(c) <= 64) return sym_powi(a, (int)c.get_num().get_si()); if (c.get_den() == 2 && abs(c) <= 32) { double s = sym_sqrt(a); return sym_powi(s, (int)c.get_num().get_si()); } }
    return fromVal(ufVal("pow", x, y)); )
}
#define UF1(N) double sym_##N(double a) { GUARD( Val x; if (!toVal(a, x)) return bot(); if (x.isConst() && x.cst() == 0 && N(0.0) == std::floor(N(0.0))) return N(0.0); return fromVal(ufVal(#N, x)); ) }
UF1(sin) UF1(cos) UF1(tan) UF1(asin) UF1(acos) UF1(atan) UF1(sinh) UF1(cosh) UF1(tanh) UF1(log10) UF1(log2) UF1(exp2) UF1(erf) UF1(tgamma) UF1(lgamma) UF1(cbrt)
#define UF2(N) double sym_##N(double a, double b) { GUARD( Val x, y; if (!toVal(a, x) || !toVal(b, y)) return bot(); return fromVal(ufVal(#N, x, y)); ) }
UF2(atan2) UF2(fmod) UF2(remainder)
double sym_expm1(double a) { return sym_sub(sym_exp(a), 1.0); }
double sym_log1p(double a) { return sym_log(sym_add(1.0, a)); }
double sym_hypot(double a, double b) { if (num2(a, b)) return hypot(a, b); if (!boxed(a) && a == 0) return sym_fabs(b); if (!boxed(b) && b == 0) return sym_fabs(a); return sym_sqrt(sym_add(sym_mul(a, a), sym_mul(b, b))); }
double sym_fmax(double a, double b) { return sym_fcmp(3, a, b) ? a : b; }
double sym_fmin(double a, double b) { return sym_fcmp(5, a, b) ? a : b; }
double sym_copysign(double a, double b) { double m = sym_fabs(a); return sym_fcmp(3, b, 0.0) ? m : sym_neg(m); }
int sym_fpclass(double a, int mask) {
  if (boxed(a)) { if ((bits(a) & 0xFFFFFFFFFFull) == BOT) return (mask & 3) != 0; 
    int both = 0x1F8; // every finite class
    if ((mask & both) == both) return 1; if ((mask & both) == 0) return 0;
    return sym_fcmp(4, a, 0.0) ? (mask & 0x8) != 0 : sym_fcmp(1, a, 0.0) ? (mask & 0x60) != 0 : (mask & 0x100) != 0; }
  int c = 0; switch (std::fpclassify(a)) { case FP_NAN: c = 3; break; case FP_INFINITE: c = std::signbit(a) ? 4 : 0x200; break; case FP_ZERO: c = std::signbit(a) ? 0x20 : 0x40; break; case FP_SUBNORMAL: c = std::signbit(a) ? 0x10 : 0x80; break; default: c = std::signbit(a) ? 8 : 0x100; }
  return (c & mask) != 0;
}
static int64_t concretise(const Val &x, int mode) { // mode 0 trunc, 1 floor ; forks over the integers reachable on this path
  if (x.isConst()) { mpq_class c = x.cst(); mpz_class q; if (mode == 0) mpz_tdiv_q(q.get_mpz_t(), c.get_num_mpz_t(), c.get_den_mpz_t()); else mpz_fdiv_q(q.get_mpz_t(), c.get_num_mpz_t(), c.get_den_mpz_t()); return q.get_si(); }
  for (int n = 0; n < 64; n++) {
    // witness value
    std::vector<double> pt; double v; Model m; std::vector<Con> none; bool eq = false; for (auto &k : PC) if (k.op == EQ) eq = true;
    if (!eq && randomPoint(none, pt, 60)) v = evalV(x, pt);
    else { // ask the solver for a point: name the value
      int a = newAtom(VAR, "cast"); Val d = vadd(Val(Poly::atom(a)), x, -1); Con c = {d.num, EQ}; int r = runz3(build({c}), FTime, &m); if (r == 0) endpath(); if (r == 2) blowup("fptosi"); S s = m[a]; size_t sl = s.find('/'); v = sl == S::npos ? atof(s.c_str()) : atof(s.c_str()) / atof(s.c_str() + sl + 1); }
    int64_t k = mode == 0 ? (int64_t)std::trunc(v) : (int64_t)std::floor(v);
    // k == trunc(x) <=> lo <(=) x <(=) hi
    mpq_class kk((long)k); Val xl, xh; bool sl = false, sh = true; // x >= k, x < k+1
    if (mode == 0 && k == 0) { sl = true; xl = vadd(x, Val(mpq_class(1))); xh = vadd(Val(mpq_class(1)), x, -1); }
    else if (mode == 0 && k < 0) { sl = true; sh = false; xl = vadd(x, Val(mpq_class(1 - kk))); xh = vadd(Val(kk), x, -1); }
    else { xl = vadd(x, Val(kk), -1); xh = vadd(Val(mpq_class(kk + 1)), x, -1); }
    bool in = decide(signPoly(xl), sl ? GT : GE) && decide(signPoly(xh), sh ? GT : GE);
    if (in) return k;
  }
  blowup("fptosi range");
}
int64_t sym_fptosi(double a) { GUARD( Val x; if (!toVal(a, x)) { return INT64_MIN; } return concretise(x, 0); ) }
int64_t sym_fptoui(double a) { GUARD( Val x; if (!toVal(a, x)) { return INT64_MIN; } return concretise(x, 0); ) }
double sym_floor(double a) { GUARD( Val x; if (!toVal(a, x)) return bot(); return (double)concretise(x, 1); ) }
double sym_ceil(double a) { return sym_neg(sym_floor(sym_neg(a))); }
double sym_trunc(double a) { GUARD( Val x; if (!toVal(a, x)) return bot(); return (double)concretise(x, 0); ) }
double sym_round(double a) { return sym_fcmp(3, a, 0.0) ? sym_floor(sym_add(a, 0.5)) : sym_neg(sym_floor(sym_add(sym_neg(a), 0.5))); }
double sym_rint(double a) { return sym_round(a); }
long sym_lround(double a) { return (long)sym_round(a); }
long sym_lrint(double a) { return (long)sym_round(a); }
long long sym_llround(double a) { return (long long)sym_round(a); }

// ---------------------------------------------------------------- harness API
double sym_real(const char *name) { int a = newAtom(VAR, uniq(name)); A[a].input = true; return box(mk(Val(Poly::atom(a)))); }
double sym_range(const char *name, double lo, double hi) { int a = newAtom(VAR, uniq(name)); A[a].input = true; A[a].lo = A[a].hi = true; A[a].l = mpq_class(lo); A[a].h = mpq_class(hi); return box(mk(Val(Poly::atom(a)))); }
int sym_int(const char *name, int lo, int hi) {
  S n = uniq(name); int v = lo; for (; v < hi; v++) if (forkChild()) break;
  IntInputs.push_back({n, v}); return v;
}
void sym_end_path(void) { flushIdentities(); SH->aborted_pre++; finish(0); }
int sym_is_symbolic(double a) { return boxed(a); }
int sym_native(void) { return 0; }
void sym_stub_draw_note(const char *) { SH->draws++; }
static bool conFor(int op, const Val &d, bool neg, Con &c) { // constraint d op 0 (or its negation)
  static const int negop[] = {1, 0, 5, 4, 3, 2}; if (neg) op = negop[op];
  if (op == 0) { c = {d.num, EQ}; return true; } if (op == 1) { c = {d.num, NE}; return true; }
  Poly p = cmpPoly(d), n = p; n.scale(-1);
  if (op == 2) c = {n, GT}; else if (op == 3) c = {n, GE}; else if (op == 4) c = {p, GT}; else c = {p, GE}; return true;
}
void sym_assume_cmp(int op, double a, double b) {
  GUARD( Val x, y; if (!toVal(a, x) || !toVal(b, y)) sym_end_path(); Val d = vadd(x, y, -1); Con c; conFor(op, d, false, c); if (!feasible(c)) sym_end_path(); addCon(c.p, c.op); )
}
static Val sc(Val v, const mpq_class &k) { v.num.scale(k); return v; }
void sym_check_cmp(int op, double a, double b, const char *what) {
  if (SH->stop.load() == 2) endpath();
  SH->obligations++;
  GUARD(
    Val x, y; bool dx = toVal(a, x), dy = toVal(b, y);
    if (!dx || !dy) { // undefined value on a feasible path
      if (!boxed(a) && !boxed(b) && op == 0 && a == b) { SH->discharged++; return; }
      if (PathCands < 4 && SH->cands < 40 && SH->ucands < 15) { SH->ucands++; Model m; int r = runz3(build({}, false), QTime, &m); if (r == 0) { SH->ucands--; SH->infeasible++; SH->discharged++; endpath(); } if (r == 2) { std::vector<double> pt; std::vector<Con> none; if (randomPoint(none, pt, 20000)) candidate(S(what) + " (undefined value)", inputsJson(0, &pt)); else { SH->inconcl++; emit(S("{\"kind\":\"unknown\",\"what\":\"") + jesc(what) + " (undefined value)\"}"); } return; } std::vector<Con> g; reportSat(S(what) + " (undefined value)", g, {}, m); } return; }
    Val d = vadd(x, y, -1); Con c; conFor(op, d, true, c);
    if (getenv("SYM_TRACE")) fprintf(stderr, "[%d] check %s: num terms %zu den %zu\n", (int)getpid(), what, d.num.t.size(), d.den.size());
    if (op == 0 && d.zero()) { IdentGoals.push_back(c); return; } // both sides have one normal form: decided with its siblings in one query
    Model m; Query q = build({c}); int r = runz3(q, QTime, &m);
    if (r == 0) { SH->discharged++; return; }
    std::vector<std::vector<Con>> robust;
    for (mpq_class e : {mpq_class(1, 1000), mpq_class(1, 50000)}) if (op == 0) { for (int sg = 1; sg >= -1; sg -= 2) { std::vector<Con> rr; Val ds = sc(d, sg); Con k; conFor(4, vadd(ds, Val(e), -1), false, k); rr.push_back(k); if (!y.isConst()) { conFor(4, vadd(ds, sc(y, e), -1), false, k); rr.push_back(k); conFor(4, vadd(ds, sc(y, e)), false, k); rr.push_back(k); } else { conFor(4, vadd(ds, Val(mpq_class(e * abs(y.cst()))), -1), false, k); rr.push_back(k); } robust.push_back(rr); } }
    else if (op >= 2) { Con r1; if (op <= 3) conFor(4, vadd(d, Val(e), -1), false, r1); else conFor(2, vadd(d, Val(e)), false, r1); robust.push_back({r1}); }
    if (r == 1 && op == 0) { // equal up to the rounding of folded constants: |a - b| > 1e-9 |b| impossible?
      bool within = true; for (int sg = 1; sg >= -1 && within; sg -= 2) { mpq_class e(1, 1000000000); std::vector<Con> rr; Val ds = sc(d, sg); Con k; conFor(4, ds, false, k); rr.push_back(k); if (!y.isConst()) { conFor(4, vadd(ds, sc(y, e), -1), false, k); rr.push_back(k); conFor(4, vadd(ds, sc(y, e)), false, k); rr.push_back(k); } else { conFor(4, vadd(ds, Val(mpq_class(e * abs(y.cst()))), -1), false, k); rr.push_back(k); } Query qq = build(rr); if (runz3(qq, QTime, 0) != 0) within = false; }
      if (within) { SH->discharged++; return; } }
    if (r == 1) { if (PathCands < 4 && SH->cands < 40) reportSat(what, {c}, robust, m); return; }
    // unknown: look for a concrete point, certified by the solver on fixed inputs
    std::vector<double> pt; for (auto &rr : robust) if (randomPoint(rr, pt, 20000)) { std::vector<Con> g = {c}; for (size_t k = 0; k < A.size(); k++) if (A[k].k == VAR && A[k].input) g.push_back(fixCon(k, mpq_class(pt[k]))); Model mm; if (runz3(build(g, false), QTime, &mm) == 1) { if (PathCands < 4 && SH->cands < 40) candidate(what, inputsJson(&mm, 0)); return; } }
    SH->inconcl++; emit(S("{\"kind\":\"unknown\",\"what\":\"") + jesc(what) + "\"}");
  )
}
void sym_check_bool(int c, const char *what) {
  SH->obligations++;
  Query q = build({}, false); // the path itself
  if (c) { SH->discharged++; return; }
  Model m; int r = runz3(q, QTime, &m); if (r == 0) { SH->infeasible++; SH->discharged++; endpath(); }
  if (r == 2) { std::vector<double> pt; std::vector<Con> none; if (randomPoint(none, pt, 20000)) { candidate(what, inputsJson(0, &pt)); return; } SH->inconcl++; emit(S("{\"kind\":\"unknown\",\"what\":\"") + jesc(what) + "\"}"); return; }
  if (PathCands < 4 && SH->cands < 40) reportSat(what, {}, {}, m);
}
static std::set<S> Reached;
void sym_reach(const char *label) {
  if (!Reached.insert(label).second) return;
  std::vector<double> pt0; std::vector<Con> none0; Model m; int r = 2;
  if (randomPoint(none0, pt0, 300)) { std::vector<Con> g; for (size_t a = 0; a < A.size(); a++) if (A[a].k == VAR && A[a].input) g.push_back(fixCon(a, mpq_class(pt0[a]))); if (runz3(build(g, false), QTime, &m) == 1) r = 1; }
  if (r != 1) { m.clear(); r = runz3(build({}, false), QTime, &m); } if (r == 0) { SH->infeasible++; endpath(); }
  S in; if (r == 1) in = inputsJson(&m, 0); else { std::vector<double> pt; std::vector<Con> none; if (randomPoint(none, pt, 5000)) { in = inputsJson(0, &pt); r = 1; } }
  if (r == 1) emit(S("{\"kind\":\"reach\",\"label\":\"") + jesc(label) + "\",\"inputs\":" + in + "}");
  else emit(S("{\"kind\":\"reach_unknown\",\"label\":\"") + jesc(label) + "\"}");
}
static std::set<S> Fns;
void sym_fn(const char *name, unsigned char *seen) { if (*seen) return; *seen = 1; emit(S("{\"kind\":\"fn\",\"name\":\"") + name + "\"}"); }
// ---------------------------------------------------------------- abnormal ends of the program under test
[[noreturn]] static void abnormal(const S &what) {
  if (InSolver) _exit(9);
  signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGFPE, SIG_DFL); signal(SIGBUS, SIG_DFL);
  SH->obligations++;
  GUARD( Model m; int r = runz3(build({}, false), QTime, &m); if (r == 0) { SH->infeasible++; SH->discharged++; endpath(); }
  if (r == 2) { std::vector<double> pt; std::vector<Con> none; if (randomPoint(none, pt, 20000)) candidate("abnormal termination: " + what, inputsJson(0, &pt)); else { SH->inconcl++; emit(S("{\"kind\":\"unknown\",\"what\":\"abnormal termination: ") + jesc(what) + "\"}"); } }
  else if (SH->cands < 40) reportSat("abnormal termination: " + what, {}, {}, m); )
  endpath();
}
void __assert_fail(const char *e, const char *f, unsigned l, const char *) { abnormal(S("assert(") + e + ") at " + f + ":" + std::to_string(l)); }
void abort(void) { abnormal("abort()"); }
void exit(int c) { if (InSolver) _exit(9); if (c) abnormal("exit(" + std::to_string(c) + ")"); finish(0); }
static void onsig(int s) { abnormal("signal " + std::to_string(s)); }
}
static void onterm() { abnormal("uncaught exception"); }
// fresh heap memory reads as an arbitrary value
static void *alloc(size_t n) { void *p = malloc(n ? n : 1); if (!p) _exit(3); uint64_t *w = (uint64_t *)p; for (size_t i = 0; i < n / 8; i++) w[i] = UNINIT; return p; }
void *operator new(size_t n) { return alloc(n); }
void *operator new[](size_t n) { return alloc(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

std::vector<HarnessCase> &harnessCases() { static std::vector<HarnessCase> v; return v; }

int main(int argc, char **argv) {
  S cs, out; for (int i = 1; i < argc; i++) { S a = argv[i]; if (a == "--list") { for (auto &c : harnessCases()) printf("%s %d\n", c.name, c.tier); return 0; } if (i + 1 >= argc) break;
    if (a == "--case") cs = argv[++i]; else if (a == "--out") out = argv[++i]; else if (a == "--paths") MaxPaths = atol(argv[++i]); else if (a == "--qtime") QTime = atof(argv[++i]); else if (a == "--ftime") FTime = atof(argv[++i]); else if (a == "--time") Deadline = now() + atof(argv[++i]); else if (a == "--tok") { TokR = atoi(argv[++i]); TokW = atoi(argv[++i]); } else if (a == "--dump") { DumpDir = argv[++i]; DumpMax = atol(argv[++i]); } else if (a == "--tier") { i++; } }
  if (Deadline == 0) Deadline = now() + 600;
  OutFd = out.empty() ? 1 : open(out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  struct rlimit rl = {64 << 20, 64 << 20}; setrlimit(RLIMIT_STACK, &rl);
  Z = new z3::context(); { z3::solver s(*Z); s.add(Z->real_const("w") > 0); s.check(); }
  H.push_back(Val()); // BOT
  HarnessCase *hc = 0; for (auto &c : harnessCases()) if (cs == c.name) hc = &c; if (!hc) { fprintf(stderr, "no case %s\n", cs.c_str()); _exit(2); }
  double t0 = now(); fflush(0);
  pid_t p = fork();
  if (p == 0) {
    static char alt[1 << 20]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGABRT, &sa, 0);
    std::set_terminate(onterm);
    if (TokR >= 0) fcntl(TokR, F_SETFL, fcntl(TokR, F_GETFL) | O_NONBLOCK);
    hc->fn(); endpath();
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR);
  char b[2048]; snprintf(b, sizeof b, "{\"kind\":\"stats\",\"paths\":%ld,\"queries\":%ld,\"unsat\":%ld,\"sat\":%ld,\"unknown\":%ld,\"obligations\":%ld,\"discharged\":%ld,\"candidates\":%ld,\"inconclusive\":%ld,\"assumed_nonzero\":%ld,\"forks\":%ld,\"depth\":%ld,\"infeasible\":%ld,\"feasibility_queries\":%ld,\"feasibility_unknown\":%ld,\"draws\":%ld,\"precondition_cut\":%ld,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"stopped\":%d,\"wall\":%.3f,\"status\":%d}",
    SH->paths.load(), SH->queries.load(), SH->unsat.load(), SH->sat.load(), SH->unknown.load(), SH->obligations.load(), SH->discharged.load(), SH->cands.load(), SH->inconcl.load(), SH->assumednz.load(), SH->forks.load(), SH->maxdepth.load(), SH->infeasible.load(), SH->feasq.load(), SH->feasunk.load(), SH->draws.load(), SH->aborted_pre.load(), SH->solver_s.load(), SH->maxq.load(), SH->stop.load(), now() - t0, st);
  emit(b); _exit(0);
}
