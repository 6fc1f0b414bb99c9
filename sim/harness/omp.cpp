// Schedule-dependence scenarios (P01..P09): the real library and program
// sources run under the simulated OpenMP runtime, then once more with one
// thread, and the results are compared.
#include "bases.h"

using sim::simulate;

namespace sim {
void prepare_child(Ctx &) { helfem::set_verbosity(false); }
}

static int count(const std::string &s, const std::string &w) { int n = 0; for (size_t p = 0; (p = s.find(w, p)) != std::string::npos; p += w.size()) n++; return n; }
// the advisory lines a build may print at most once per process
static void once(Ctx &c, const char *label) {
  std::string o = c.output();
  int n = 0; std::istringstream is(o); std::string line; std::map<std::string, int> seen;
  while (std::getline(is, line)) if (line.find("arning") != std::string::npos || line.find("WARNING") != std::string::npos || line.find("cap") != std::string::npos) n++;
  if (n) sim::probe("advisory printed");
  int w = std::max(count(o, "arning"), count(o, "WARNING"));
  if (w > 1) sim::violation(sim::INVARIANT, std::string("invariant ") + label, "the unconverged-quadrature advisory was printed " + std::to_string(w) + " times in one process");
}

// Another object of the same kind is built and used right before the
// simulated run: whatever the code remembers from an earlier object (in a
// function-local static, a cache, a pool) belongs to that other object then.
static sim::Options setup(Ctx &c) {
  int k = (int)c.knob("other object", 0, 9);
  if (k == 1 || k == 3) {
    AParm p = {3, 4, 4, 3, 1, 0, 23, 2, 7.5, false};
    SBasis o = mks(p); Matrix m = o.overlap() + o.kinetic();
    ABasis q = mk(p); m = q.overlap();
    sim::probe("another atomic basis before the run");
  }
  if (k == 2 || k == 3) {
    DParm p = {1, 2, 4, 4, 3, 1, 1, 1, 16, 1.3, 3.0};
    DBasis o = mk(p); Matrix m = o.overlap();
    sim::probe("another diatomic basis before the run");
  }
  return options(c);
}

// ==================================================================== P01
static void compareJK(const std::string &l, const ABasis &a, const ABasis &b, Ctx &c, bool K, bool rs) {
  auto r = c.rng("densities");
  for (int i = 0; i < 2; i++) {
    Matrix P = randsym(r, a.Nbf());
    same(l + " coulomb", a.coulomb(P), b.coulomb(P));
    if (K) same(l + " exchange", a.exchange(P), b.exchange(P));
    if (rs) same(l + " rs_exchange", a.rs_exchange(P), b.rs_exchange(P));
  }
}
static void compareJK(const std::string &l, const SBasis &a, const SBasis &b, Ctx &c, bool rs, int lmax) {
  auto r = c.rng("densities");
  for (int i = 0; i < 2; i++) {
    Matrix P = randsym(r, a.Nbf()); Cube Pc = randcube(r, lmax + 1, a.Nbf());
    same(l + " coulomb", a.coulomb(P), b.coulomb(P));
    same(l + " exchange", a.exchange(Pc), b.exchange(Pc));
    if (rs) same(l + " rs_exchange", a.rs_exchange(Pc), b.rs_exchange(Pc));
  }
}
static void p01_atomic(Ctx &c) {
  AParm p = aparm(c, 4, 1);
  bool K = c.flag("exchange", 70);
  ABasis a = mk(p), b = mk(p);
  simulate(setup(c), [&]() { a.compute_tei(K); });
  b.compute_tei(K);
  compareJK("atomic tei", a, b, c, K, false);
  auto fa = a.radial_df_factors(), fb = b.radial_df_factors(); (void)fa; (void)fb;
}
static void p01_atomic_rs(Ctx &c) {
  AParm p = aparm(c, 3, 1);
  bool yuk = c.flag("yukawa", 60);
  if (!yuk) p.nel = std::min(p.nel, 2);
  double lam = 0.1 + 0.05 * (int)c.knob("omega", 0, 12);
  ABasis a = mk(p), b = mk(p);
  bool both = c.flag("both", 40);
  simulate(setup(c), [&]() { if (both) a.compute_tei(true); if (yuk) a.compute_yukawa(lam); else a.compute_erfc(lam); });
  b.compute_tei(true); if (!both) a.compute_tei(true);
  if (yuk) b.compute_yukawa(lam); else b.compute_erfc(lam);
  compareJK(yuk ? "atomic yukawa" : "atomic erfc", a, b, c, true, true);
}
static void p01_sadatom(Ctx &c) {
  AParm p = aparm(c, 5, 2);
  int kind = (int)c.knob("kind", 0, 2);
  if (kind == 2) p.nel = std::min(p.nel, 2);
  double lam = 0.1 + 0.05 * (int)c.knob("omega", 0, 12);
  SBasis a = mks(p), b = mks(p);
  simulate(setup(c), [&]() { a.compute_tei(); if (kind == 1) a.compute_yukawa(lam); if (kind == 2) a.compute_erfc(lam); });
  b.compute_tei(); if (kind == 1) b.compute_yukawa(lam); if (kind == 2) b.compute_erfc(lam);
  compareJK("sadatom tei", a, b, c, kind > 0, p.lmax);
  auto r = c.rng("slater");
  Vector v = randmat(r, a.Nbf(), 1);
  for (int k = 0; k <= 2 * p.lmax; k += 2) same("sadatom slater_F", a.slater_F(k, v), b.slater_F(k, v));
}
// rebuilding over existing tables: nothing of the earlier build may survive
static void p01_rebuild(Ctx &c) {
  AParm p = aparm(c, 3, 1);
  double l1 = 0.2, l2 = 0.2 + 0.1 * (int)c.knob("omega", 1, 8);
  bool sad = c.flag("sadatom", 50);
  if (sad) {
    SBasis a = mks(p), b = mks(p);
    simulate(setup(c), [&]() { a.compute_tei(); a.compute_yukawa(l1); a.compute_tei(); a.compute_yukawa(l2); });
    b.compute_tei(); b.compute_yukawa(l2);
    compareJK("sadatom rebuild", a, b, c, true, p.lmax);
  } else {
    ABasis a = mk(p), b = mk(p);
    simulate(setup(c), [&]() { a.compute_tei(false); a.compute_yukawa(l1); a.compute_tei(true); a.compute_yukawa(l2); });
    b.compute_tei(true); b.compute_yukawa(l2);
    compareJK("atomic rebuild", a, b, c, true, true);
  }
}

// the adaptive inner quadrature reaches its cap in several threads at once
static void p01_cap(Ctx &c) {
  AParm p = aparm(c, 3, 0);
  p.fam = 4; p.nnodes = 2; p.zeroder = false; p.lmax = p.mmax = 0; p.nel = 2;
  p.nquad = 512 + (int)c.knob("hugequad", 0, 8);
  bool sad = c.flag("sadatom", 50);
  sim::Options o = options(c);
  c.truncate_output();
  if (sad) {
    SBasis a = mks(p), b = mks(p);
    simulate(o, [&]() { a.compute_tei(); });
    once(c, "cap advisory"); b.compute_tei();
    compareJK("sadatom cap", a, b, c, false, p.lmax);
  } else {
    ABasis a = mk(p), b = mk(p);
    simulate(o, [&]() { a.compute_tei(true); });
    once(c, "cap advisory"); b.compute_tei(true);
    compareJK("atomic cap", a, b, c, true, false);
  }
}

// ==================================================================== P02
static DParm small(DParm p) { if (p.big) return p; p.l0 = std::min(p.l0, 1); if (p.mmax) { p.l1 = 1; p.nel = std::min(p.nel, 2); } return p; }
static void p02_tei(Ctx &c) {
  DParm p = small(dparm(c, 3, 2));
  bool K = c.flag("exchange", 80);
  DBasis a = mk(p), b = mk(p);
  simulate(setup(c), [&]() { a.compute_tei(K); });
  b.compute_tei(K);
  auto r = c.rng("densities");
  for (int i = 0; i < 2; i++) {
    Matrix P = randsym(r, a.Nbf());
    same("diatomic coulomb", a.coulomb(P), b.coulomb(P));
    if (K) same("diatomic exchange", a.exchange(P), b.exchange(P));
  }
  // the stored factorisation of one element, against a fresh one
  int iel = (int)r.below(p.nel), L = (int)r.below(2), M = (int)r.below(L + 1);
  Matrix x, y; bool ok = true;
  try { y = b.in_element_kernel(iel, L, M); } catch (const std::exception &) { ok = false; }
  if (ok) { x = a.in_element_kernel(iel, L, M); same("diatomic in-element kernel", x, y); }
}
static void p02_rebuild(Ctx &c) {
  DParm p = dparm(c, 2, 1);
  DBasis a = mk(p), b = mk(p);
  simulate(setup(c), [&]() { a.compute_tei(false); a.compute_tei(true); });
  b.compute_tei(true);
  auto r = c.rng("densities"); Matrix P = randsym(r, a.Nbf());
  same("diatomic rebuild coulomb", a.coulomb(P), b.coulomb(P));
  same("diatomic rebuild exchange", a.exchange(P), b.exchange(P));
}
static void p02_cap(Ctx &c) {
  DParm p = dparm(c, 2, 1);
  p.fam = 4; p.nnodes = 2; p.mmax = 0; p.l0 = 0; p.nel = 2;
  p.nquad = 512 + (int)c.knob("hugequad", 0, 8);
  sim::Options o = options(c);
  DBasis a = mk(p), b = mk(p);
  c.truncate_output();
  simulate(o, [&]() { a.compute_tei(true); });
  once(c, "diatomic cap advisory");
  b.compute_tei(true);
  auto r = c.rng("densities"); Matrix P = randsym(r, a.Nbf());
  same("diatomic cap coulomb", a.coulomb(P), b.coulomb(P));
}

// ==================================================================== P03
static Matrix a_rs(const ABasis &a, const Matrix &P) { return a.rs_exchange(P); }
static Matrix a_rs(const DBasis &, const Matrix &P) { return P; }
template <typename B> static void p03_check(Ctx &c, const B &a, const std::string &l, bool rs) {
  auto r = c.rng("densities");
  const int reps = 2;
  Matrix P = randsym(r, a.Nbf()), P0 = P, Q = randsym(r, a.Nbf());
  Matrix J[reps], K[reps], R[reps], JQ;
  simulate(setup(c), [&]() {
    for (int i = 0; i < reps; i++) { J[i] = a.coulomb(P); K[i] = a.exchange(P); if (rs) R[i] = a_rs(a, P); }
    JQ = a.coulomb(Q);
  });
  exact(l + " density after assembly", P, P0);
  for (int i = 0; i < reps; i++) {
    same(l + " coulomb", J[i], a.coulomb(P));
    same(l + " exchange", K[i], a.exchange(P));
    if (rs) same(l + " rs_exchange", R[i], a_rs(a, P));
  }
  double s = J[0].cwiseAbs().maxCoeff() * a.Nbf();
  holds(l + " coulomb symmetry", (J[0] - J[0].transpose()).cwiseAbs().maxCoeff(), 0, 1e-9, s);
  holds(l + " coulomb reciprocity", (Q.cwiseProduct(J[0])).sum(), (P.cwiseProduct(JQ)).sum(), 1e-9, s * a.Nbf());
}
static void p03_atomic(Ctx &c) {
  AParm p = aparm(c, 4, 2);
  int kind = (int)c.knob("rs", 0, 2);
  if (kind == 2) p.nel = std::min(p.nel, 2);
  ABasis a = mk(p); a.compute_tei(true);
  if (kind == 1) a.compute_yukawa(0.4); if (kind == 2) a.compute_erfc(0.4);
  p03_check(c, a, "atomic", kind > 0);
}
static void p03_diatomic(Ctx &c) {
  DParm p = small(dparm(c, 3, 2));
  DBasis a = mk(p); a.compute_tei(true);
  p03_check(c, a, "diatomic", false);
}
static void p03_sadatom(Ctx &c) {
  AParm p = aparm(c, 5, 3);
  int kind = (int)c.knob("rs", 0, 2);
  if (kind == 2) p.nel = std::min(p.nel, 2);
  SBasis a = mks(p); a.compute_tei(); if (kind == 1) a.compute_yukawa(0.4); if (kind == 2) a.compute_erfc(0.4);
  auto r = c.rng("densities");
  Matrix P = randsym(r, a.Nbf()), P0 = P; Cube Pc = randcube(r, p.lmax + 1, a.Nbf()), Pc0 = Pc;
  const int reps = 3; Matrix J[reps]; Cube K[reps], R[reps];
  simulate(setup(c), [&]() { for (int i = 0; i < reps; i++) { J[i] = a.coulomb(P); K[i] = a.exchange(Pc); if (kind) R[i] = a.rs_exchange(Pc); } });
  exact("sadatom density after assembly", P, P0);
  for (size_t i = 0; i < Pc.size(); i++) exact("sadatom densities after assembly", Pc[i], Pc0[i]);
  for (int i = 0; i < reps; i++) {
    same("sadatom coulomb", J[i], a.coulomb(P)); same("sadatom exchange", K[i], a.exchange(Pc));
    if (kind) same("sadatom rs_exchange", R[i], a.rs_exchange(Pc));
  }
}
// matrices assembled for several spin channels by concurrent callers
static void p03_callers(Ctx &c) {
  AParm p = aparm(c, 3, 1);
  ABasis a = mk(p); a.compute_tei(true);
  auto r = c.rng("densities");
  int n = (int)c.knob("callers", 2, 4);
  std::vector<Matrix> P(n), J(n), K(n);
  for (auto &m : P) m = randsym(r, a.Nbf());
  sim::Options o = options(c); o.nthreads = std::min(o.nthreads, 4);
  simulate(o, [&]() {
    std::vector<std::function<void()>> f;
    for (int i = 0; i < n; i++) f.push_back([&, i]() { J[i] = a.coulomb(P[i]); K[i] = a.exchange(P[i]); });
    sim::run_callers(f);
  });
  for (int i = 0; i < n; i++) { same("concurrent coulomb", J[i], a.coulomb(P[i])); same("concurrent exchange", K[i], a.exchange(P[i])); }
}

// ============================================================ P04, P05, P06
struct Func { int x, c; const char *n; };
static Func func(Ctx &c, bool lapl = true) {
  static const Func f[] = {{1, 7, "LDA"}, {101, 130, "GGA"}, {202, 231, "mGGA"}, {0, 7, "LDA-c"}, {101, 0, "GGA-x"}, {1, 130, "LDA-x GGA-c"}, {101, 7, "GGA-x LDA-c"}, {1, 231, "LDA-x mGGA-c"}, {202, 130, "mGGA-x GGA-c"}, {206, 0, "mGGA-lapl"}, {206, 7, "mGGA-lapl LDA-c"}};
  int i = (int)c.knob("functional", 0, lapl ? 10 : 8);
  sim::probe((std::string("functional ") + f[i].n).c_str());
  return f[i];
}
template <typename G, typename B> static void grid_check(Ctx &c, G mkgrid, const B &a, const Matrix &Sinvh, const std::string &l, double nel_tol, const Matrix &S, bool lapl = true) {
  Func f = func(c, lapl); Vector none;
  auto r = c.rng("densities");
  bool pol = c.flag("polarised", 50), beta = c.flag("beta", 70);
  Matrix Pa = dens(r, Sinvh, 2, 1.0), Pb = dens(r, Sinvh, 1, 1.0), Pa0 = Pa, Pb0 = Pb;
  double thr = 1e-12;
  if (!pol) {
    Matrix P = Pa + Pb, H, H0, H2; double E, N, T, E0, N0, T0, E2, N2, T2;
    simulate(setup(c), [&]() { auto g = mkgrid(); g.eval_Fxc(f.x, none, f.c, none, P, H, E, N, T, thr); if (c.flag("again", 30)) { g.eval_Fxc(f.x, none, f.c, none, P, H2, E2, N2, T2, thr); } else { H2 = H; E2 = E; N2 = N; T2 = T; } });
    auto g = mkgrid(); g.eval_Fxc(f.x, none, f.c, none, P, H0, E0, N0, T0, thr);
    same(l + " Fock", H, H0); same(l + " Exc", E, E0); same(l + " Nel", N, N0); same(l + " Ekin", T, T0);
    same(l + " Fock repeated", H2, H0); same(l + " Exc repeated", E2, E0); same(l + " Nel repeated", N2, N0);
    if (nel_tol > 0) holds(l + " electron number", N, (P * S).trace(), nel_tol, std::abs(N));
  } else {
    Matrix Ha, Hb, Ha0, Hb0; double E, N, T, E0, N0, T0;
    simulate(setup(c), [&]() { auto g = mkgrid(); g.eval_Fxc(f.x, none, f.c, none, Pa, Pb, Ha, Hb, E, N, T, beta, thr); });
    auto g = mkgrid(); g.eval_Fxc(f.x, none, f.c, none, Pa, Pb, Ha0, Hb0, E0, N0, T0, beta, thr);
    same(l + " Fock a", Ha, Ha0); same(l + " Fock b", Hb, Hb0); same(l + " Exc", E, E0); same(l + " Nel", N, N0); same(l + " Ekin", T, T0);
    exact(l + " density", Pa, Pa0); exact(l + " density", Pb, Pb0);
    if (nel_tol > 0) holds(l + " electron number", N, ((Pa + Pb) * S).trace(), nel_tol, std::abs(N));
  }
}
static void p04_grid(Ctx &c) {
  AParm p = aparm(c, 4, 1); p.Zl = p.Zr = 0;
  ABasis a = mk(p);
  int lang = 3 * p.lmax + 2 + (int)c.knob("lang", 0, 3), mang = 2 * p.mmax + 1 + (int)c.knob("mang", 0, 2);
  Matrix Sinvh = a.Sinvh(false, 0);
  grid_check(c, [&]() { return helfem::atomic::dftgrid::DFTGrid(&a, lang, mang); }, a, Sinvh, "atomic grid", 0, a.overlap());
}
static void p05_grid(Ctx &c) {
  AParm p = aparm(c, 9, 2);
  SBasis a = mks(p);
  Func f = func(c); Vector none; auto r = c.rng("densities");
  bool pol = c.flag("polarised", 50), beta = c.flag("beta", 70), prime = c.flag("prime", 50);
  Matrix Sinvh = a.Sinvh();
  Cube Pa(p.lmax + 1), Pb(p.lmax + 1), P(p.lmax + 1);
  for (int l = 0; l <= p.lmax; l++) { Pa[l] = dens(r, Sinvh, 2, 1.0); Pb[l] = dens(r, Sinvh, 1, 1.0); P[l] = Pa[l] + Pb[l]; }
  double thr = 1e-12;
  SBasis b = mks(p);
  if (!pol) {
    Cube H, H0, H2; double E, N, E0, N0, E2, N2;
    simulate(setup(c), [&]() { helfem::sadatom::dftgrid::DFTGrid g(&a); if (prime) g.prime_quadrature_cache(f.x, f.c); g.eval_Fxc(f.x, none, f.c, none, P, H, E, N, thr); g.eval_Fxc(f.x, none, f.c, none, P, H2, E2, N2, thr); });
    helfem::sadatom::dftgrid::DFTGrid g(&b); g.eval_Fxc(f.x, none, f.c, none, P, H0, E0, N0, thr);
    same("sadatom grid Fock", H, H0); same("sadatom grid Exc", E, E0); same("sadatom grid Nel", N, N0);
    same("sadatom grid Fock repeated", H2, H0); same("sadatom grid Exc repeated", E2, E0);
  } else {
    Cube Ha, Hb, Ha0, Hb0; double E, N, E0, N0;
    simulate(setup(c), [&]() { helfem::sadatom::dftgrid::DFTGrid g(&a); if (prime) g.prime_quadrature_cache(f.x, f.c); g.eval_Fxc(f.x, none, f.c, none, Pa, Pb, Ha, Hb, E, N, beta, thr); });
    helfem::sadatom::dftgrid::DFTGrid g(&b); g.eval_Fxc(f.x, none, f.c, none, Pa, Pb, Ha0, Hb0, E0, N0, beta, thr);
    same("sadatom grid Fock a", Ha, Ha0); same("sadatom grid Fock b", Hb, Hb0); same("sadatom grid Exc", E, E0); same("sadatom grid Nel", N, N0);
  }
}
static void p06_general(Ctx &c) {
  DParm p = small(dparm(c, 3, 2)); p.nquad = 8 + (int)c.knob("gquad", 0, 6);
  DBasis a = mk(p);
  int lm = std::max(p.l0, p.mmax ? p.l1 : 0);
  int lang = 2 * lm + 4, mang = 2 * p.mmax + 1 + (int)c.knob("mang", 0, 2);
  Matrix Sinvh = a.Sinvh(false, 0);
  grid_check(c, [&]() { return helfem::diatomic::dftgrid::DFTGrid(&a, lang, mang); }, a, Sinvh, "diatomic grid", 0, a.overlap(), false);
}
static Matrix block_m(const DBasis &a, const Matrix &P) {
  // densities without coupling between different m, as the axial evaluator requires
  Matrix Q = Matrix::Zero(P.rows(), P.cols());
  for (int m = -a.absm_max(); m <= a.absm_max(); m++) { auto idx = a.m_indices(m); for (auto i : idx) for (auto j : idx) Q(i, j) = P(i, j); }
  return Q;
}
static void p06_purem(Ctx &c) {
  DParm p = dparm(c, 4, 3);
  DBasis a = mk(p);
  int lm = std::max(p.l0, p.mmax ? p.l1 : 0), lang = 4 * lm + 6;
  Func f = func(c); Vector none; auto r = c.rng("densities");
  bool pol = c.flag("polarised", 50), beta = c.flag("beta", 70);
  Matrix Sinvh = a.Sinvh(false, 1);
  Matrix Pa = block_m(a, dens(r, Sinvh, 2, 1.0)), Pb = block_m(a, dens(r, Sinvh, 1, 1.0));
  double E, N, T, E0, N0, T0, thr = 1e-12;
  if (!pol) {
    Matrix P = Pa + Pb, H, H0;
    simulate(setup(c), [&]() { helfem::diatomic::dftgrid_purem::PureMDFTGrid g(&a, lang); g.eval_Fxc(f.x, none, f.c, none, P, H, E, N, T, thr); });
    helfem::diatomic::dftgrid_purem::PureMDFTGrid g(&a, lang); g.eval_Fxc(f.x, none, f.c, none, P, H0, E0, N0, T0, thr);
    same("axial grid Fock", H, H0);
  } else {
    Matrix Ha, Hb, Ha0, Hb0;
    simulate(setup(c), [&]() { helfem::diatomic::dftgrid_purem::PureMDFTGrid g(&a, lang); g.eval_Fxc(f.x, none, f.c, none, Pa, Pb, Ha, Hb, E, N, T, beta, thr); });
    helfem::diatomic::dftgrid_purem::PureMDFTGrid g(&a, lang); g.eval_Fxc(f.x, none, f.c, none, Pa, Pb, Ha0, Hb0, E0, N0, T0, beta, thr);
    same("axial grid Fock a", Ha, Ha0); same("axial grid Fock b", Hb, Hb0);
  }
  same("axial grid Exc", E, E0); same("axial grid Nel", N, N0); same("axial grid Ekin", T, T0);
}

// ==================================================================== P07
static std::function<double(double)> weight(int k) {
  switch (k) {
    case 0: return std::function<double(double)>();
    case 1: return [](double r) { return r * r; };
    case 2: return [](double r) { return std::exp(-r); };
    case 3: return [](double r) { return 1.0 / (1.0 + r); };
    case 4: return [](double r) { return std::cos(r); };
    default: return [](double r) { return std::fmod(r, 0.37) < 0.2 ? 1.0 : 2.0; }; // never converges: reaches the order cap
  }
}
static void p07_fem(Ctx &c) {
  int fam = family(c), nn = (int)c.knob("nnodes", 3, fam == 5 ? 4 : 6), nel = (int)c.knob("nel", 1, 12);
  int wk = (int)c.knob("weight", 0, 11); if (wk > 5) wk -= 6; if (wk == 5) { nn = 3; nel = std::min(nel, 3); }
  Vector b = helfem::atomic::basis::normal_grid(nel, 10.0, (int)c.knob("igrid", 1, 4), 2.0);
  bool zf = c.flag("zero_left", 50), zr = c.flag("zero_right", 50);
  helfem::polynomial_basis::FiniteElementBasis fem(poly(fam, nn), b, zf, false, zr, fam == 5 ? zr : false);
  helfem::atomic::basis::FEMRadialBasis rad(fem, 4 * nn);
  auto f = weight(wk); int ld = (int)c.knob("ld", 0, 1), rd = (int)c.knob("rd", 0, 1);
  Vector xq, wq; { auto g = rad.get_xq(); xq = g; wq = Vector::Constant(xq.size(), 2.0 / xq.size()); }
  std::vector<double> brk; if (c.flag("breakpoint", 30)) brk.push_back(3.3);
  std::function<Matrix(Vector, size_t)> ev = [&](Vector x, size_t iel) { return fem.eval_dnf(x, ld, iel); };
  Matrix A, B, C, D, S, T; Vector v, w;
  simulate(setup(c), [&]() {
    A = fem.matrix_element(ld, rd, xq, wq, f);
    B = fem.matrix_element(ld, rd, f, brk);
    C = fem.matrix_element(ev, ev, xq, wq, f);
    D = fem.matrix_element_auto(ev, ev, f, brk);
    v = fem.vector_element(ld, xq, wq, f);
    w = fem.vector_element(ev, xq, wq, f);
    S = rad.overlap(); T = rad.kinetic();
  });
  same("matrix_element", A, fem.matrix_element(ld, rd, xq, wq, f));
  same("matrix_element auto", B, fem.matrix_element(ld, rd, f, brk));
  same("matrix_element evaluators", C, fem.matrix_element(ev, ev, xq, wq, f));
  same("matrix_element_auto evaluators", D, fem.matrix_element_auto(ev, ev, f, brk));
  same("vector_element", Matrix(v), Matrix(fem.vector_element(ld, xq, wq, f)));
  same("vector_element evaluators", Matrix(w), Matrix(fem.vector_element(ev, xq, wq, f)));
  same("radial overlap", S, rad.overlap()); same("radial kinetic", T, rad.kinetic());
  // every element's block is in the total exactly once
  Matrix A2 = Matrix::Zero(A.rows(), A.cols()), B2 = A2; Vector v2 = Vector::Zero(v.size());
  for (size_t iel = 0; iel < (size_t)nel; iel++) {
    size_t i0, i1; fem.get_idx(iel, i0, i1);
    Matrix m = fem.matrix_element(iel, ld, rd, xq, wq, f), mb = fem.matrix_element(iel, ld, rd, f, brk); Vector u = fem.vector_element(iel, ld, xq, wq, f);
    A2.block(i0, i0, m.rows(), m.cols()) += m; B2.block(i0, i0, mb.rows(), mb.cols()) += mb; v2.segment(i0, u.size()) += u;
  }
  same("sum of element blocks", A, A2); same("sum of element blocks auto", B, B2); same("sum of element vectors", Matrix(v), Matrix(v2));
}
static void p07_gaunt(Ctx &c) {
  int L = (int)c.knob("Lmax", 0, 6), l = (int)c.knob("lmax", 0, 4), lp = (int)c.knob("lpmax", 0, 4), mc = (int)c.knob("mcap", -1, 4);
  std::unique_ptr<helfem::gaunt::Gaunt> g;
  simulate(setup(c), [&]() { g.reset(new helfem::gaunt::Gaunt(L, l, lp, mc)); });
  helfem::gaunt::Gaunt s(L, l, lp, mc);
  std::vector<double> x, y;
  for (int a = 0; a <= L; a++) for (int M = -a; M <= a; M++) for (int b = 0; b <= l; b++) for (int m = -b; m <= b; m++) for (int d = 0; d <= lp; d++) {
    if (mc >= 0 && (std::abs(M) > mc || std::abs(m) > mc || std::abs(M - m) > mc)) continue; // outside the stored window
    x.push_back(g->coeff(a, M, b, m, d)); y.push_back(s.coeff(a, M, b, m, d));
    if (mc < 0 && std::abs(M - m) <= d) { double z = helfem::gaunt::gaunt_coefficient(a, M, b, m, d, M - m); if (std::abs(z - x.back()) > 1e-10) mismatch("Gaunt table entry", str(x.back()) + " instead of " + str(z)); }
  }
  Matrix X = Eigen::Map<Matrix>(x.data(), 1, x.size()), Y = Eigen::Map<Matrix>(y.data(), 1, y.size());
  exact("Gaunt table", X, Y);
}
static void p07_twodgrid(Ctx &c) {
  DParm p = dparm(c, 3, 2); p.Z1 = std::max(1, p.Z1);
  DBasis a = mk(p);
  int lang = 10 + (int)c.knob("lang", 0, 6);
  std::unique_ptr<modelpotential::ModelPotential> v1, v2;
  int k = (int)c.knob("potential", 0, 2);
  if (k == 0) { v1.reset(new modelpotential::GSZAtom(p.Z1)); v2.reset(new modelpotential::GSZAtom(p.Z2)); }
  if (k == 1) { v1.reset(new modelpotential::TFAtom(p.Z1)); v2.reset(new modelpotential::SAPAtom(p.Z2)); }
  if (k == 2) { v1.reset(new modelpotential::SAPFEAtom(p.Z1)); v2.reset(new modelpotential::SAPFEAtom(p.Z2)); }
  int l = (int)c.knob("l", 0, 1), m = (int)c.knob("m", -l, l);
  auto pr = (helfem::diatomic::twodquad::probe_t)c.knob("probe", 0, 2);
  Vector ex(2); ex << 0.7, 1.9;
  Matrix V, G, Go, T, To, V0, G0, Go0, T0, To0;
  helfem::diatomic::twodquad::TwoDGrid q(&a, lang);
  simulate(setup(c), [&]() { V = q.model_potential(v1.get(), v2.get()); G = q.gto_projection(l, m, ex, pr); Go = q.gto_overlap(l, m, ex, pr); T = q.sto_projection(l, m, ex, pr); To = q.sto_overlap(l, m, ex, pr); });
  V0 = q.model_potential(v1.get(), v2.get()); G0 = q.gto_projection(l, m, ex, pr); Go0 = q.gto_overlap(l, m, ex, pr); T0 = q.sto_projection(l, m, ex, pr); To0 = q.sto_overlap(l, m, ex, pr);
  same("2D model potential", V, V0); same("2D gto projection", G, G0); same("2D gto overlap", Go, Go0); same("2D sto projection", T, T0); same("2D sto overlap", To, To0);
}
static void p07_oneel(Ctx &c) {
  AParm p = aparm(c, 5, 2);
  bool off = c.flag("offcentre", 70);
  if (off) { p.Zl = (int)c.knob("Zl", 0, 3); p.Zr = (int)c.knob("Zr", 0, 3); if (p.Zl || p.Zr) p.Rhalf = 0.3 * p.rmax; p.nel = std::min(p.nel, 3); }
  else { p.model = (modelpotential::nuclear_model_t)c.knob("nucleus", 0, 3); p.Rrms = 0.05; }
  ABasis a = mk(p);
  Matrix S, T, V, D, Q, B; modelpotential::GSZAtom gsz(p.Z);
  Matrix M;
  simulate(setup(c), [&]() { S = a.overlap(); T = a.kinetic(); V = a.nuclear(); D = a.dipole_z(); Q = a.quadrupole_zz(); B = a.Bz_field(0.1); M = a.model_potential(&gsz); });
  same("atomic overlap", S, a.overlap()); same("atomic kinetic", T, a.kinetic()); same("atomic nuclear", V, a.nuclear());
  same("atomic dipole", D, a.dipole_z()); same("atomic quadrupole", Q, a.quadrupole_zz()); same("atomic Bz", B, a.Bz_field(0.1)); same("atomic model potential", M, a.model_potential(&gsz));
}
static void p07_oneel_dia(Ctx &c) {
  DParm p = dparm(c, 5, 2);
  Matrix S, T, V, D, Q, B;
  simulate(setup(c), [&]() { DBasis a = mk(p); S = a.overlap(); T = a.kinetic(); V = a.nuclear(); D = a.dipole_z(); Q = a.quadrupole_zz(); B = a.Bz_field(0.1); });
  DBasis a = mk(p);
  same("diatomic overlap", S, a.overlap()); same("diatomic kinetic", T, a.kinetic()); same("diatomic nuclear", V, a.nuclear());
  same("diatomic dipole", D, a.dipole_z()); same("diatomic quadrupole", Q, a.quadrupole_zz()); same("diatomic Bz", B, a.Bz_field(0.1));
}

// ==================================================================== P08
// Caller threads run random read-only calls. The reference is the same calls
// made afterwards by one thread on the same objects, and, so that a table
// corrupted by the concurrent first use cannot serve as its own reference, on
// objects built afresh.
static void p08(Ctx &c, const std::vector<int> &kinds) {
  AParm p = aparm(c, 3, 1); DParm d = dparm(c, 2, 1);
  int ncall = (int)c.knob("callers", 2, 5), nops = (int)c.knob("ops", 1, 5);
  auto r = c.rng("calls");
  struct Call { int kind; sim::Rng r; };
  std::vector<std::vector<Call>> plan(ncall);
  int need = 0;
  bool hot = c.flag("samecall", 60); // all callers start with the same kind of call
  int first = kinds[r.below(kinds.size())];
  for (auto &v : plan) for (int i = 0; i < nops; i++) { int k = (hot && i == 0) ? first : kinds[r.below(kinds.size())]; v.push_back({k, sim::Rng(r.next())}); need |= NEEDS[k]; }
  Objs o = build(p, d, need);
  std::vector<std::vector<Res>> got(ncall, std::vector<Res>(nops));
  sim::Options op = options(c); op.nthreads = std::min(op.nthreads, 3);
  simulate(op, [&]() {
    std::vector<std::function<void()>> f;
    for (int i = 0; i < ncall; i++) f.push_back([&, i]() { for (int j = 0; j < nops; j++) { sim::point(); got[i][j] = one_call(o, plan[i][j].kind, plan[i][j].r); } });
    sim::run_callers(f);
  });
  Objs fresh = build(p, d, need);
  for (int pass = 0; pass < 2; pass++)
    for (int i = 0; i < ncall; i++) for (int j = 0; j < nops; j++) {
      Res ref = one_call(pass ? fresh : o, plan[i][j].kind, plan[i][j].r);
      Res &g = got[i][j];
      if (g.size() != ref.size()) mismatch("concurrent call kind " + std::to_string(plan[i][j].kind), "result size differs");
      if (!g.empty()) exact("concurrent call kind " + std::to_string(plan[i][j].kind), Matrix(Eigen::Map<Matrix>(g.data(), 1, g.size())), Matrix(Eigen::Map<Matrix>(ref.data(), 1, ref.size())));
    }
}
static void p08_special(Ctx &c) { p08(c, {0, 1, 2, 3}); }
static void p08_potential(Ctx &c) { p08(c, {4, 5, 6, 12, 13}); }
static void p08_basis(Ctx &c) { p08(c, {7, 8, 9, 10, 11, 14, 17}); }
static void p08_integral(Ctx &c) { p08(c, {15, 16, 8}); }
static void p08_all(Ctx &c) { p08(c, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17}); }
// building bases and tables from several threads at once (constructors share
// no object, but may share hidden static state)
static void p08_build(Ctx &c) {
  AParm p = aparm(c, 3, 1); DParm d = dparm(c, 2, 1);
  int n = (int)c.knob("callers", 2, 4);
  std::vector<Matrix> S(n), T(n); std::vector<int> k(n);
  for (int i = 0; i < n; i++) k[i] = (int)c.knob("build" + std::to_string(i), 0, 2);
  auto f1 = [&](int i, Matrix &s, Matrix &t) {
    if (k[i] == 0) { ABasis a = mk(p); s = a.overlap(); t = a.kinetic(); }
    else if (k[i] == 1) { SBasis a = mks(p); s = a.overlap(); t = a.nuclear(); }
    else { DBasis a = mk(d); s = a.overlap(); t = a.kinetic(); }
  };
  sim::Options op = options(c); op.nthreads = std::min(op.nthreads, 3);
  simulate(op, [&]() { std::vector<std::function<void()>> f; for (int i = 0; i < n; i++) f.push_back([&, i]() { f1(i, S[i], T[i]); }); sim::run_callers(f); });
  for (int i = 0; i < n; i++) { Matrix s, t; f1(i, s, t); same("concurrently built overlap", S[i], s); same("concurrently built operator", T[i], t); }
}

// ==================================================================== P09
static void p09_scf(Ctx &c) {
  sadatom::scf::AtomicSCFOptions o;
  o.Z = (int)c.knob("Z", 1, 6); o.lmax = (int)c.knob("lmax", 0, 2);
  int fam = c.flag("hip", 20) ? 5 : 4;
  int nn = (int)c.knob("nnodes", 3, fam == 5 ? 3 : 5), nel = (int)c.knob("nel", 1, 5);
  o.poly = poly(fam, nn); o.Nquad = 5 * nn;
  o.bval = helfem::atomic::basis::normal_grid(nel, 12.0, 4, 2.0);
  o.restricted = c.flag("restricted", 50);
  static const int F[][2] = {{0, 0}, {1, 7}, {101, 130}, {202, 231}, {406, 0}, {428, 0}, {470, 0}, {206, 0}, {1, 130}, {101, 7}, {1, 231}, {0, 130}, {202, 7}};
  int fi = (int)c.knob("functional", 0, 12);
  if (fi == 5 && nel > 2) nel = 2, o.bval = helfem::atomic::basis::normal_grid(2, 12.0, 4, 2.0);
  o.x_func = F[fi][0]; o.c_func = F[fi][1];
  int nelec = o.Z;
  if (o.restricted && o.lmax == 0) nelec = std::min(nelec, 4);
  o.nela = (nelec + 1) / 2; o.nelb = nelec / 2;
  if (o.restricted) { if (nelec % 2) nelec++; o.nela = o.nelb = nelec / 2; }
  o.iguess = (int)c.knob("guess", 0, 3); o.verbosity = (int)c.knob("verbosity", 0, 2);
  o.iconf = c.flag("confinement", 15) ? 1 : 0; o.conf_N = 2; o.conf_R = 6.0;
  OpenOrbitalOptimizer::steps() = (int)c.knob("steps", 1, 2); OpenOrbitalOptimizer::batch() = (int)c.knob("batch", 1, 6);
  OpenOrbitalOptimizer::cold() = c.flag("cold start", 40);
  OpenOrbitalOptimizer::Trace t1, t2; sadatom::scf::AtomicSCFResult r1, r2;
  std::string why1, why2;
  c.truncate_output();
  OpenOrbitalOptimizer::trace() = &t1;
  simulate(setup(c), [&]() { try { r1 = sadatom::scf::run_atomic_scf(o); } catch (const std::exception &e) { why1 = e.what(); } });
  std::string log1 = c.output(); c.truncate_output();
  OpenOrbitalOptimizer::trace() = &t2;
  try { r2 = sadatom::scf::run_atomic_scf(o); } catch (const std::exception &e) { why2 = e.what(); }
  std::string log2 = c.output();
  // advisories are printed once per process, so only the first run has them
  auto strip = [](const std::string &t) { std::istringstream is(t); std::string o, l; while (std::getline(is, l)) if (l.find("Warning:") == std::string::npos) o += l + "\n"; return o; };
  log1 = strip(log1); log2 = strip(log2);
  OpenOrbitalOptimizer::trace() = nullptr;
  if (why1 != why2) mismatch("scf outcome", "'" + why1 + "' under the schedule, '" + why2 + "' with one thread");
  if (!why1.empty()) { sim::probe("scf rejected input"); return; }
  sim::probe("scf finished");
  if (t1.energies.size() != t2.energies.size() || t1.focks.size() != t2.focks.size()) mismatch("scf trace", "number of Fock builds differs");
  for (size_t i = 0; i < t1.energies.size(); i++) same("trial energy", t1.energies[i], t2.energies[i], 1e-9);
  for (size_t i = 0; i < t1.focks.size(); i++) same("trial Fock matrix", t1.focks[i], t2.focks[i], 1e-8);
  same("scf radial density", r1.Prad, r2.Prad, 1e-6);
  // the log: numbers up to rounding, text exactly
  std::istringstream a(log1), b(log2); std::string x, y;
  for (;;) {
    bool fa = (bool)(a >> x), fb = (bool)(b >> y);
    if (fa != fb) mismatch("scf log", "one log is longer: '" + (fa ? x : y) + "'");
    if (!fa) break;
    if (x == y) continue;
    char *e1, *e2; double u = strtod(x.c_str(), &e1), v = strtod(y.c_str(), &e2);
    if (e1 == x.c_str() || e2 == y.c_str() || std::string(e1) != std::string(e2) || !(std::abs(u - v) <= 1e-6 * std::max(1.0, std::abs(v)))) mismatch("scf log", "'" + x + "' vs '" + y + "'");
  }
}
// concurrent SCF runs by independent callers
static void p09_two_scf(Ctx &c) {
  int n = 2; std::vector<sadatom::scf::AtomicSCFOptions> o(n); std::vector<sadatom::scf::AtomicSCFResult> r(n), q(n);
  for (int i = 0; i < n; i++) {
    std::string s = std::to_string(i);
    o[i].Z = (int)c.knob("Z" + s, 2, 4); if (o[i].Z == 3) o[i].Z = 4; o[i].lmax = (int)c.knob("lmax" + s, 0, 1); o[i].poly = poly(4, 3); o[i].Nquad = 15;
    o[i].bval = helfem::atomic::basis::normal_grid((int)c.knob("nel" + s, 1, 3), 10.0, 4, 2.0);
    o[i].restricted = true; o[i].nela = o[i].nelb = o[i].Z / 2; o[i].x_func = c.flag("dft" + s, 60) ? 101 : 0; o[i].c_func = 0; o[i].verbosity = 0;
  }
  OpenOrbitalOptimizer::steps() = 1; OpenOrbitalOptimizer::batch() = (int)c.knob("batch", 1, 3);
  sim::Options op = options(c); op.nthreads = std::min(op.nthreads, 3);
  simulate(op, [&]() { std::vector<std::function<void()>> f; for (int i = 0; i < n; i++) f.push_back([&, i]() { r[i] = sadatom::scf::run_atomic_scf(o[i]); }); sim::run_callers(f); });
  for (int i = 0; i < n; i++) { q[i] = sadatom::scf::run_atomic_scf(o[i]); same("concurrent scf density", r[i].Prad, q[i].Prad, 1e-6); }
}

namespace sim {
const std::vector<Scenario> &all_scenarios() {
  static const std::vector<Scenario> s = {
    {"P01", "atomic", 3, p01_atomic}, {"P01", "atomic_rs", 2, p01_atomic_rs}, {"P01", "sadatom", 3, p01_sadatom}, {"P01", "rebuild", 1, p01_rebuild}, {"P01", "cap", 1, p01_cap},
    {"P02", "tei", 4, p02_tei}, {"P02", "rebuild", 1, p02_rebuild}, {"P02", "cap", -1, p02_cap},
    {"P03", "atomic", 3, p03_atomic}, {"P03", "diatomic", 3, p03_diatomic}, {"P03", "sadatom", 2, p03_sadatom}, {"P03", "callers", 1, p03_callers},
    {"P04", "grid", 1, p04_grid}, {"P05", "grid", 1, p05_grid}, {"P06", "general", 1, p06_general}, {"P06", "purem", 1, p06_purem},
    {"P07", "fem", 3, p07_fem}, {"P07", "gaunt", 2, p07_gaunt}, {"P07", "twodgrid", 2, p07_twodgrid}, {"P07", "oneel", 2, p07_oneel}, {"P07", "oneel_dia", 1, p07_oneel_dia},
    {"P08", "special", 2, p08_special}, {"P08", "potential", 3, p08_potential}, {"P08", "basis", 3, p08_basis}, {"P08", "integral", 1, p08_integral}, {"P08", "all", 2, p08_all}, {"P08", "build", 2, p08_build},
    {"P09", "scf", 4, p09_scf}, {"P09", "two_scf", 1, p09_two_scf},
  };
  return s;
}
}
