// Particle filters: every particle moves through the proposal, every weight gets likelihood * transition / proposal, weights normalised.
#include "common.h"
#include "pf.h"
#include "gauss.h"
typedef BootstrapFilter<ColumnVector, ColumnVector> BF; typedef ParticleFilter<ColumnVector, ColumnVector> PF; typedef MCPdf<ColumnVector> MC;
struct Setup { WS s; MC prior; Setup(int n, int d) : s(symWS("", n, d)), prior(n, d) { loadMC(prior, s); s = s.norm(); } };
// expected set after the move
static WS move(const WS &s, const Par &p, double u, const std::vector<Vd> &z) { WS r = s; for (int i = 0; i < s.size(); i++) r.x[i] = upMove(p, s.x[i], u, z[i]); return r; }
static std::vector<Vd> draws(int n, int d) { std::vector<Vd> z; for (int i = 0; i < n; i++) { z.push_back(symV("z", d)); queue(z[i]); } return z; }
static WS weigh(const WS &s, const Vd &f) { WS r = s; for (int i = 0; i < s.size(); i++) r.w[i] = s.w[i] * f[i]; ASSUME_GT(r.total(), 0.0); return r.norm(); }
static Vd likes(const WS &s, const Par &m, double y, double sp) { Vd f; for (int i = 0; i < s.size(); i++) f.push_back(upDens(m, y, s.x[i][0], sp)); return f; }
CASE(initial) { int n = sym_int("n", 1, 4), d = sym_int("d", 1, 2), own = sym_int("own", 0, 1); Setup a(n, d); MC post(n, d); { BF *f = own ? new BF(&a.prior, &post, 10) : new BF(&a.prior, 10); eqMC(*f->PostGet(), a.s, "posterior before any update", n < 4); if (own) CHECK(f->PostGet() == &post, "the caller's posterior is used"); delete f; } eqMC(a.prior, a.s, "prior", false); if (own) eqMC(post, a.s, "the caller's posterior survives", false); REACH("end"); }
CASE(bootstrap_move) { int n = sym_int("n", 1, 3), d = sym_int("d", 1, 2), in = sym_int("in", 0, 1), own = sym_int("own", 0, 1); Setup a(n, d); MC post(n, d); Par p = symPar("p", in); UProp sp(p, d, in); SystemModel<ColumnVector> sm(&sp); BF *f = own ? new BF(&a.prior, &post, 10) : new BF(&a.prior, 10); Vd u = symV("u", 1); rng_reset(); std::vector<Vd> z = draws(n, d); CHECK(in ? f->Update(&sm, toC(u)) : f->Update(&sm), "update succeeds"); CHECK(rng_unused() == 0 && rng_count() == n * d, "fresh draws for every particle"); eqMC(*f->PostGet(), move(a.s, p, in ? u[0] : 0.0, z), "moved particles", n < 3); eqMC(a.prior, a.s, "prior", false); delete f; rng_reset(); REACH("end"); }
CASE(bootstrap_weigh) { int n = sym_int("n", 1, 3), d = sym_int("d", 1, 2), in = sym_int("in", 0, 1); Setup a(n, d); Par m = symPar("m", in); UPdf<ColumnVector> mp(m, 1, in); MeasurementModel<ColumnVector, ColumnVector> mm(&mp); BF f(&a.prior, 10); Vd y = symV("y", 1), s = symV("s", 1); WS e = weigh(a.s, likes(a.s, m, y[0], in ? s[0] : 0.0)); rng_reset(); CHECK(in ? f.Update(&mm, toC(y), toC(s)) : f.Update(&mm, toC(y)), "update succeeds"); CHECK(rng_count() == 0, "no draws"); eqMC(*f.PostGet(), e, "reweighted particles", false); eqMC(a.prior, a.s, "prior", false); REACH("end"); }
CASE(impossible) { int n = sym_int("n", 1, 3), in = sym_int("in", 0, 1), both = sym_int("both", 0, 1); WS s = tagWS(n); MC prior(n, 2); loadMC(prior, s); Tags P("prop"), L("like"); for (int i = 0; i < n; i++) L.t[std::vector<int>{4, 10 + i + (both ? 100 : 0), in ? 6 : 0}] = 0.0; TPdf sp(&P, 2, false, 100), mp(&L, 1, in); SystemModel<ColumnVector> sm(&sp); MeasurementModel<ColumnVector, ColumnVector> mm(&mp); BF f(&prior, 10); rng_reset(); ColumnVector Y = toC(Vd(1, 4.0)), S = toC(Vd(1, 6.0)); bool ok = both ? (in ? f.Update(&sm, &mm, Y, S) : f.Update(&sm, &mm, Y)) : in ? f.Update(&mm, Y, S) : f.Update(&mm, Y); CHECK(!ok, "a measurement that no particle explains is reported"); CHECK((int)f.PostGet()->NumSamplesGet() == n, "number of particles"); eqMC(prior, s.norm(), "prior", false); REACH("end"); }
CASE(bootstrap_both) { int n = sym_int("n", 1, 2), in = sym_int("in", 0, 1), si = sym_int("si", 0, 1); Setup a(n, 1); Par p = symPar("p", in), m = symPar("m", si); UProp sp(p, 1, in); UPdf<ColumnVector> mp(m, 1, si); SystemModel<ColumnVector> sm(&sp); MeasurementModel<ColumnVector, ColumnVector> mm(&mp); BF f(&a.prior, 10); Vd u = symV("u", 1), y = symV("y", 1), s = symV("s", 1); rng_reset(); std::vector<Vd> z = draws(n, 1); WS e = move(a.s, p, in ? u[0] : 0.0, z); e = weigh(e, likes(e, m, y[0], si ? s[0] : 0.0)); bool ok = in && si ? f.Update(&sm, toC(u), &mm, toC(y), toC(s)) : in ? f.Update(&sm, toC(u), &mm, toC(y)) : si ? f.Update(&sm, &mm, toC(y), toC(s)) : f.Update(&sm, &mm, toC(y)); CHECK(ok, "update succeeds"); eqMC(*f.PostGet(), e, "moved and reweighted", false); rng_reset(); REACH("end"); }
CASE(bootstrap_history) { int n = 2; Setup a(n, 1); Par p = symPar("p", true), m = symPar("m", false); UProp sp(p, 1, true); UPdf<ColumnVector> mp(m, 1, false); SystemModel<ColumnVector> sm(&sp); MeasurementModel<ColumnVector, ColumnVector> mm(&mp); BF f(&a.prior, 10); WS e = a.s; rng_reset(); for (int k = 0; k < 2; k++) { if (sym_int("op", 0, 1)) { Vd u = symV("u", 1); std::vector<Vd> z = draws(n, 1); e = move(e, p, u[0], z); f.Update(&sm, toC(u)); } else { Vd y = symV("y", 1); e = weigh(e, likes(e, m, y[0], 0.0)); f.Update(&mm, toC(y)); } } eqMC(*f.PostGet(), e, "any order of updates", false); rng_reset(); REACH("end"); }
CASE(bootstrap_new_model) { // each update uses the model given in that call
  int n = 2; Setup a(n, 1); Par p = symPar("p", false), q = symPar("q", true); UProp sp(p, 1, false), sq(q, 1, true); SystemModel<ColumnVector> sm(&sp), sn(&sq); BF f(&a.prior, 10); rng_reset(); std::vector<Vd> z = draws(n, 1); f.Update(&sm); std::vector<Vd> z2 = draws(n, 1); Vd u = symV("u", 1); f.Update(&sn, toC(u)); eqMC(*f.PostGet(), move(move(a.s, p, 0.0, z), q, u[0], z2), "second model", false); CHECK(f.ProposalGet() == &sq, "proposal"); rng_reset(); REACH("end"); }
// general importance sampling: densities are arbitrary values, one per pair of new and old particle and input
static void general(int n, bool in, bool si, bool both, int steps, bool own = false, int merge = 0) { WS s = tagWS(n); if (merge < 0) for (int i = 0; i < n; i++) s.x[i] = s.x[0]; MC prior(n, 2), post(n, 2); loadMC(prior, s); s = s.norm(); WS e = s; Tags P("prop"), T("trans"), L("like"); TPdf prop(&P, 2, in, 100), tp(&T, 2, in), mp(&L, 1, si); prop.merge = merge; if (merge < 0) prop.merge = 0; SystemModel<ColumnVector> sm(&tp); MeasurementModel<ColumnVector, ColumnVector> mm(&mp); PF *fp = own ? new PF(&prior, &post, &prop, 10) : new PF(&prior, &prop, 10); PF &f = *fp; for (int k = 0; k < steps; k++) { int u = 2 + k, y = 4 + k, q = 6 + k; ColumnVector U = toC(Vd(1, u)), Y = toC(Vd(1, y)), S = toC(Vd(1, q)); rng_reset(); WS o = e; double z0 = 0; for (int i = 0; i < n; i++) { double z = merge > 0 && i ? z0 : sym_real("z"); z0 = z; rng_queue(z); e.x[i][0] = z; e.x[i][1] = (merge > 0 ? merge : o.x[i][1]) + 100 + (in ? 1000 * u : 0); } bool ok;
    if (both) { for (int i = 0; i < n; i++) { int a = (int)e.x[i][1], b = (int)o.x[i][1]; double pr = P.at(a, b, in ? u : 0), tr = T.at(a, b, in ? u : 0), li = L.at(y, a, si ? q : 0); if (pr != 0) e.w[i] = e.w[i] * li * tr / pr; else e.w[i] = 0.0; } ASSUME_GT(e.total(), 0.0); e = e.norm(); ok = in && si ? f.Update(&sm, U, &mm, Y, S) : in ? f.Update(&sm, U, &mm, Y) : si ? f.Update(&sm, &mm, Y, S) : f.Update(&sm, &mm, Y); }
    else ok = in ? f.Update(&sm, U) : f.Update(&sm);
    CHECK(ok, "update succeeds"); CHECK(rng_unused() == 0 && rng_count() == n, "fresh draws for every particle"); } eqMC(*f.PostGet(), e, "importance sampling", false); eqMC(prior, s, "prior", false); CHECK(f.ProposalGet() == &prop, "proposal"); delete fp; rng_reset(); REACH("end"); }
CASE(general_move) { int n = sym_int("n", 1, 3), in = sym_int("in", 0, 1); general(n, in, false, false, sym_int("steps", 1, 2), sym_int("own", 0, 1)); }
CASE(general_weigh) { int n = sym_int("n", 1, 3), in = sym_int("in", 0, 1); general(n, in, false, true, 1); }
CASE(general_weigh_sensor) { int n = sym_int("n", 1, 3), in = sym_int("in", 0, 1); general(n, in, true, true, 1); }
CASE(general_twice) { general(2, sym_int("in", 0, 1), false, true, 2, sym_int("own", 0, 1)); }
CASE(general_merged) { general(sym_int("n", 2, 3), sym_int("in", 0, 1), false, true, 1, false, 500); } // different particles that all move to one point
CASE(general_merged_sensor) { general(2, true, true, true, 1, false, 500); }
CASE(general_equal) { general(sym_int("n", 2, 3), sym_int("in", 0, 1), false, true, 1, false, -1); } // equal particles that move apart
CASE(general_meas_only) { int n = sym_int("n", 1, 3), in = sym_int("in", 0, 1); Setup a(n, 1); Par p = symPar("p", false), m = symPar("m", in); UProp prop(p, 1, false); UPdf<ColumnVector> mp(m, 1, in); MeasurementModel<ColumnVector, ColumnVector> mm(&mp); PF f(&a.prior, &prop, 10); Vd y = symV("y", 1), s = symV("s", 1); WS e = weigh(a.s, likes(a.s, m, y[0], in ? s[0] : 0.0)); if (in) f.Update(&mm, toC(y), toC(s)); else f.Update(&mm, toC(y)); eqMC(*f.PostGet(), e, "reweighted particles", false); REACH("end"); }
CASE(general_new_proposal) { int n = 2; Setup a(n, 1); Par p = symPar("p", false), q = symPar("q", false), t = symPar("t", false); UProp pp(p, 1, false), pq(q, 1, false); UPdf<ColumnVector> tp(t, 1, false); SystemModel<ColumnVector> sm(&tp); PF f(&a.prior, &pp, 10); f.ProposalSet(&pq); rng_reset(); std::vector<Vd> z = draws(n, 1); f.Update(&sm); eqMC(*f.PostGet(), move(a.s, q, 0.0, z), "replaced proposal", false); rng_reset(); REACH("end"); }
// library densities in the loop
CASE(linear_gaussian) { int n = sym_int("n", 1, 2), d = sym_int("d", 1, 2), in = sym_int("in", 0, 1); Setup a(n, d); Md A = symM("A", d, d), B = symM("B", d, 1), H = symM("H", 1, d); Vd mu = symV("mu", d), nu = symV("nu", 1), u = symV("u", 1), y = symV("y", 1); LinearAnalyticConditionalGaussian *p = linPdf(A, in ? &B : 0, mu, ident(d)), *q = linPdf(H, 0, nu, Md(1, Vd(1, 2.0))); LinearAnalyticSystemModelGaussianUncertainty sm(p); LinearAnalyticMeasurementModelGaussianUncertainty mm(q); BF f(&a.prior, 10); rng_reset(); std::vector<Vd> z = draws(n, d); WS e = a.s; Vd l; for (int i = 0; i < n; i++) { e.x[i] = add(add(mul(A, a.s.x[i]), mu), z[i]); if (in) e.x[i] = add(e.x[i], mul(B, u)); l.push_back(dens(add(mul(H, e.x[i]), nu), Md(1, Vd(1, 2.0)), y)); } if (in) f.Update(&sm, toC(u)); else f.Update(&sm); eqMC(*f.PostGet(), e, "moved", false); e = weigh(e, l); f.Update(&mm, toC(y)); eqMC(*f.PostGet(), e, "weighed", false); rng_reset(); delete p; delete q; REACH("end"); }
// larger sets: concrete particles and densities, one of each free
CASE(sizes_bootstrap) { int n = sym_int("n", 6, 10), k = sym_int("k", 0, 1) ? n - 1 : 1; ASSUME(n != 7 && n != 9); WS s = bigWS(n, k); MC prior(n, 2); loadMC(prior, s); s = s.norm(); WS e = s; Tags P("prop"), L("like"); L.fix(4, (int)e.x[k][1] + 100); TPdf sp(&P, 2, true, 100), mp(&L, 1, false); SystemModel<ColumnVector> sm(&sp); MeasurementModel<ColumnVector, ColumnVector> mm(&mp); BF f(&prior, 100); rng_reset(); for (int i = 0; i < n; i++) { double z = sym_real("z"); rng_queue(z); e.x[i][0] = z; e.x[i][1] = e.x[i][1] + 100 + 1000; } L.fy = 4; L.fx = (int)e.x[k][1]; for (int i = 0; i < n; i++) e.w[i] = e.w[i] * L.at(4, (int)e.x[i][1], 0); e = e.norm(); CHECK(f.Update(&sm, toC(Vd(1, 1.0)), &mm, toC(Vd(1, 4.0))), "update succeeds"); CHECK(rng_unused() == 0 && rng_count() == n, "fresh draws for every particle"); eqMC(*f.PostGet(), e, "moved and reweighted", false); eqMC(prior, s, "prior", false); rng_reset(); REACH("end"); }
CASE(sizes_general) { int n = sym_int("n", 6, 8), which = sym_int("which", 0, 2), k = n - 2; ASSUME(n != 7); WS s = bigWS(n, which == 0 ? k : -1); MC prior(n, 2); loadMC(prior, s); s = s.norm(); WS e = s; Tags P("prop"), T("trans"), L("like"); P.fix(-1, -1); T.fix(-1, -1); L.fix(-1, -1); if (which == 1) P.fy = (int)e.x[k][1] + 100, P.fx = (int)e.x[k][1]; if (which == 2) T.fy = (int)e.x[k][1] + 100, T.fx = (int)e.x[k][1]; if (which == 1) ASSUME_GT(P.at(P.fy, P.fx, 0), 0.0); TPdf prop(&P, 2, false, 100), tp(&T, 2, false), mp(&L, 1, false); SystemModel<ColumnVector> sm(&tp); MeasurementModel<ColumnVector, ColumnVector> mm(&mp); PF f(&prior, &prop, 100); rng_reset(); for (int i = 0; i < n; i++) { double z = sym_real("z"); rng_queue(z); int o = (int)e.x[i][1]; e.x[i][0] = z; e.x[i][1] = o + 100.0; e.w[i] = e.w[i] * L.at(4, o + 100, 0) * T.at(o + 100, o, 0) / P.at(o + 100, o, 0); } ASSUME_GT(e.total(), 0.0); e = e.norm(); CHECK(f.Update(&sm, &mm, toC(Vd(1, 4.0))), "update succeeds"); eqMC(*f.PostGet(), e, "importance sampling", false); eqMC(prior, s, "prior", false); rng_reset(); REACH("end"); }
CASE(many_updates) { int n = 3; WS s = bigWS(n, 1); MC prior(n, 2); loadMC(prior, s); s = s.norm(); WS e = s; Tags P("prop"), L("like"); L.fix(-1, -1); TPdf sp(&P, 2, false, 100), mp(&L, 1, false); SystemModel<ColumnVector> sm(&sp); MeasurementModel<ColumnVector, ColumnVector> mm(&mp); BF f(&prior, 100); for (int t = 0; t < 9; t++) { rng_reset(); if (t % 3 != 2) { for (int i = 0; i < n; i++) { double z = sym_real("z"); rng_queue(z); e.x[i][0] = z; e.x[i][1] = e.x[i][1] + 100; } f.Update(&sm); } else { for (int i = 0; i < n; i++) e.w[i] = e.w[i] * L.at(t, (int)e.x[i][1], 0); e = e.norm(); f.Update(&mm, toC(Vd(1, t))); } } eqMC(*f.PostGet(), e, "after many updates", false); CHECK(f.TimeStepGet() == 6, "time step"); rng_reset(); REACH("end"); }
// far beyond the fully symbolic sizes: fixed values apart from a few free ones
CASE(big) { int n = sym_int("n", 0, 1) ? 20 : 40, k = n - 1; WS s = bigWS(n, k); MC prior(n, 2); loadMC(prior, s); s = s.norm(); WS e = s; Tags P("prop"), L("like"); L.fix(4, (int)e.x[1][1] + 100); TPdf sp(&P, 2, false, 100), mp(&L, 1, false); SystemModel<ColumnVector> sm(&sp); MeasurementModel<ColumnVector, ColumnVector> mm(&mp); BF f(&prior, 100); rng_reset(); for (int i = 0; i < n; i++) { double z = i % 7 ? 0.25 * i : sym_real("z"); rng_queue(z); e.x[i][0] = z; e.x[i][1] = e.x[i][1] + 100; } L.fy = 4; L.fx = (int)e.x[1][1]; for (int i = 0; i < n; i++) e.w[i] = e.w[i] * L.at(4, (int)e.x[i][1], 0); e = e.norm(); CHECK(f.Update(&sm, &mm, toC(Vd(1, 4.0))), "update succeeds"); CHECK(rng_unused() == 0 && rng_count() == n, "fresh draws for every particle"); eqMC(*f.PostGet(), e, "moved and reweighted", false); rng_reset(); REACH("end"); }
// the next update starts from the resampled set
static void near3(double w, const char *m) { CHECK_LE(w * 3 - 1.0, 1e-9, m); CHECK_GE(w * 3 - 1.0, -1e-9, m); }
CASE(after_resampling) { int n = 3, dyn = sym_int("dyn", 0, 1); WS s = bigWS(n, -1); s.x[1][0] = sym_real("x"); s.w[0] = 1.0; s.w[1] = 6.0; s.w[2] = 1.0; MC prior(n, 2); loadMC(prior, s); s = s.norm(); WS e = s; Tags P("prop"), L("like"); L.fix(-1, -1); for (int i = 0; i < n; i++) L.t[std::vector<int>{1, 110 + i, 0}] = 1.0 + i; TPdf sp(&P, 2, false, 100), mp(&L, 1, false); SystemModel<ColumnVector> sm(&sp); MeasurementModel<ColumnVector, ColumnVector> mm(&mp); BF f(&prior, dyn ? 0 : 1, dyn ? 1000.0 : 0.0); bool drawn = false; for (int t = 0; t < 3; t++) { rng_reset(); Vd u; for (double a : {0.5, 0.3, 0.7}) u.push_back(a); if (!dyn && t) queue(u), drawn = true; for (int i = 0; i < n; i++) { double z = t == 1 ? sym_real("z") : 0.5 * i; rng_queue(z); } CHECK(f.Update(&sm), "prediction succeeds"); CHECK(rng_unused() == 0, "draws"); rng_reset(); std::vector<WeightedSample<ColumnVector> > A = f.PostGet()->ListOfSamplesGet(); CHECK((int)A.size() == n, "number of particles"); if (drawn) for (int i = 0; i < n; i++) near3(A[i].WeightGet(), "a moved survivor keeps its uniform weight"); for (int i = 0; i < n; i++) { e.x[i][0] = A[i].ValueGet()(1); e.x[i][1] = A[i].ValueGet()(2); e.w[i] = A[i].WeightGet(); }
  for (int i = 0; i < n; i++) e.w[i] = e.w[i] * L.at(t, (int)e.x[i][1], 0); e = e.norm(); if (dyn) queue(u), drawn = true; CHECK(f.Update(&mm, toC(Vd(1, t))), "measurement succeeds"); CHECK(rng_unused() == 0, "draws"); if (dyn) { A = f.PostGet()->ListOfSamplesGet(); for (int i = 0; i < n; i++) near3(A[i].WeightGet(), "uniform weights"); } else eqMC(*f.PostGet(), e, "reweighted survivors", false); } rng_reset(); REACH("end"); }
