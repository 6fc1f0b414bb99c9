// P21 on the library's own interface: everything a caller can ask of a basis,
// computed in a fresh process while memory first holds something else.
struct Rec { std::vector<std::pair<std::string, Res>> r;
  void operator()(const std::string &n, const Matrix &m) { Res x = {(double)m.rows(), (double)m.cols()}; push(x, m); r.push_back({n, x}); }
  void operator()(const std::string &n, const Eigen::MatrixXcd &m) { Res x = {(double)m.rows(), (double)m.cols()}; push(x, m); r.push_back({n, x}); }
  void operator()(const std::string &n, const Cube &m) { for (auto &s : m) (*this)(n, s); }
  void operator()(const std::string &n, double d) { r.push_back({n, {d}}); }
  void operator()(const std::string &n, const std::vector<Eigen::Index> &v) { Res x; for (auto i : v) x.push_back((double)i); r.push_back({n, x}); }
  void operator()(const std::string &n, const std::vector<std::vector<Eigen::Index>> &v) { for (auto &i : v) (*this)(n, i); }
  void operator()(const std::string &n, const Eigen::VectorXi &v) { Res x; for (int i = 0; i < v.size(); i++) x.push_back(v(i)); r.push_back({n, x}); }
  void sub(const std::string &n, const std::function<void()> &f) { try { f(); } catch (const std::exception &e) { std::string w = e.what(); r.push_back({n + " throws " + w, {}}); } }
};
struct MemFunc { int x, c; };
static MemFunc memfunc(Rng &r, bool lapl) { static const MemFunc f[] = {{1, 7}, {101, 130}, {202, 231}, {0, 7}, {101, 0}, {1, 130}, {101, 7}, {1, 231}, {202, 130}, {206, 0}, {206, 7}}; return f[r.below(lapl ? 11 : 9)]; }
template <typename G> static void rec_grid(Rec &out, Rng &r, G &g, const Matrix &Sinvh, bool lapl) {
  Vector none; Matrix Pa = dens(r, Sinvh, 2, 1), Pb = dens(r, Sinvh, 1, 1);
  for (int pass = 0; pass < 2; pass++) {
    MemFunc f = memfunc(r, lapl); Matrix H, Ha, Hb; double E, N, T; bool beta = r.below(2);
    if (r.below(2)) { g.eval_Fxc(f.x, none, f.c, none, Pa, H, E, N, T, 1e-12); out("Fock", H); }
    else { g.eval_Fxc(f.x, none, f.c, none, Pa, Pb, Ha, Hb, E, N, T, beta, 1e-12); out("Fock a", Ha); if (beta) out("Fock b", Hb); }
    out("Exc", E); out("Nel", N); out("Ekin", T);
  }
}
static void lib_atomic(const AParm &p, Rng r, Rec &out) {
  ABasis a = mk(p);
  auto P = [&]() { return randsym(r, a.Nbf()); };
  out.sub("one-electron", [&]() { out("overlap", a.overlap()); out("kinetic", a.kinetic()); out("nuclear", a.nuclear()); out("dipole", a.dipole_z()); out("quadrupole", a.quadrupole_zz()); out("Bz", a.Bz_field(0.3)); });
  int sym = (int)r.below(3); bool chol = r.below(2);
  out.sub("Sinvh", [&]() { out("Sinvh", a.Sinvh(chol, sym)); out("symmetries", a.get_sym_idx(sym)); });
  out.sub("confinement", [&]() { out("confinement", a.confinement(2 + (int)r.below(3), 1.0, 1 + (int)r.below(3), 0.5, 0.1)); });
  out.sub("model", [&]() { modelpotential::GSZAtom g(p.Z); out("GSZ", a.model_potential(&g)); modelpotential::SAPAtom s(p.Z); out("SAP", a.model_potential(&s)); modelpotential::TFAtom t(p.Z); out("TF", a.model_potential(&t)); });
  out.sub("other basis", [&]() { AParm q = p; q.nel++; q.lmax = std::max(0, p.lmax - 1); q.mmax = std::min(q.mmax, q.lmax); ABasis b = mk(q); out("overlap between bases", a.overlap(b)); });
  out.sub("twoe", [&]() { a.compute_tei(true); Matrix Q = P(); out("coulomb", a.coulomb(Q)); out("exchange", a.exchange(Q)); });
  out.sub("range separated", [&]() { if (r.below(2)) a.compute_yukawa(0.4); else a.compute_erfc(0.4); out("rs_exchange", a.rs_exchange(P())); });
  out.sub("evaluation", [&]() { size_t iel = r.below(a.get_rad_Nel()); double cth = 2 * r.uni() - 1, phi = 6 * r.uni(); out("bf", a.eval_bf(iel, cth, phi)); Eigen::MatrixXcd dr, dt, dp; a.eval_df(iel, cth, phi, dr, dt, dp); out("df", dr); out("df", dt); out("df", dp); out("lf", a.eval_lf(iel, cth, phi)); out("list", a.bf_list(iel)); out("r", Matrix(a.get_r(iel))); out("w", Matrix(a.get_wrad(iel))); });
  out.sub("grid", [&]() { helfem::atomic::dftgrid::DFTGrid g(&a, 3 * p.lmax + 2, 2 * p.mmax + 1); rec_grid(out, r, g, a.Sinvh(false, 0), true); });
}
static void lib_sadatom(const AParm &p, Rng r, Rec &out) {
  SBasis a = mks(p); Matrix Sinvh;
  out.sub("one-electron", [&]() { out("overlap", a.overlap()); out("kinetic", a.kinetic()); out("kinetic l", a.kinetic_l()); out("nuclear", a.nuclear()); Sinvh = a.Sinvh(); out("Sinvh", Sinvh); });
  out.sub("confinement", [&]() { out("confinement", a.confinement(2 + (int)r.below(3), 1.0, 1 + (int)r.below(3), 0.5, 0.1)); });
  out.sub("potential", [&]() { out("potential", a.potential([](double x) { return std::exp(-x); }, {1.0, 2.5})); modelpotential::SAPAtom s(p.Z); out("SAP", a.model_potential(&s)); });
  Cube Pl(p.lmax + 1), Pm(p.lmax + 1); Matrix Pa = Matrix::Zero(a.Nbf(), a.Nbf()), Pb = Pa;
  for (int l = 0; l <= p.lmax; l++) { Pl[l] = dens(r, Sinvh, 2, 1); Pm[l] = dens(r, Sinvh, 1, 1); Pa += Pl[l]; Pb += Pm[l]; }
  out.sub("twoe", [&]() { a.compute_tei(); out("coulomb", a.coulomb(Pa)); out("exchange", a.exchange(Pl)); });
  out.sub("range separated", [&]() { if (r.below(2)) a.compute_yukawa(0.4); else a.compute_erfc(0.4); out("rs_exchange", a.rs_exchange(Pl)); });
  out.sub("radii", [&]() { out("radii", Matrix(a.radii())); out("weights", Matrix(a.quadrature_weights())); out("screening", Matrix(a.coulomb_screening(Pa))); out("nuclear density", a.nuclear_density(Pa)); out("nuclear gradient", a.nuclear_density_gradient(Pa)); });
  out.sub("orbitals", [&]() { Matrix C = Sinvh.leftCols(std::min<Eigen::Index>(3, Sinvh.cols())); out("orbitals", a.orbitals(C)); out("derivative", a.orbitals_derivative(C)); out("second", a.orbitals_second_derivative(C)); out("at r", Matrix(a.eval_orbs(C, 0.2 + 3 * r.uni()))); out("F", a.slater_F((int)r.below(3), C.col(0))); });
  out.sub("density", [&]() { bool q = r.below(2); out("density", Matrix(a.electron_density(Pa, q))); out("gradient", Matrix(a.electron_density_gradient(Pa))); out("laplacian", Matrix(a.electron_density_laplacian(Pa))); out("tau", Matrix(a.kinetic_energy_density(Pl))); out("in element", Matrix(a.electron_density(r.below(a.get_rad_Nel()), Pa, q))); });
  out.sub("xc screening", [&]() { static const int f[][2] = {{1, 0}, {1, 7}, {101, 130}, {0, 130}, {101, 7}}; int k = (int)r.below(5); out("xc", Matrix(a.xc_screening(Pa, f[k][0], f[k][1]))); out("xc polarised", a.xc_screening(Pa, Pb, f[k][0], f[k][1])); });
  out.sub("radius", [&]() { out("maximum", a.electron_density_maximum_radius(Pa)); out("vdw", a.vdw_radius(Pa)); out("count", a.electron_count_radius(Pa)); });
  out.sub("R matrices", [&]() { for (auto &m : a.Rmatrices()) out("R", m.second); });
  out.sub("other basis", [&]() { AParm q = p; q.nel++; SBasis b = mks(q); out("overlap between bases", a.overlap(b)); });
  out.sub("grid", [&]() { helfem::sadatom::dftgrid::DFTGrid g(&a); Vector none;
    for (int pass = 0; pass < 2; pass++) { MemFunc f = memfunc(r, true); Cube H, Ha, Hb; double E, N; bool beta = r.below(2);
      if (r.below(2)) g.prime_quadrature_cache(f.x, f.c);
      if (r.below(2)) { g.eval_Fxc(f.x, none, f.c, none, Pl, H, E, N, 1e-12); out("Fock", H); } else { g.eval_Fxc(f.x, none, f.c, none, Pl, Pm, Ha, Hb, E, N, beta, 1e-12); out("Fock a", Ha); if (beta) out("Fock b", Hb); }
      out("Exc", E); out("Nel", N); } });
}
static void lib_diatomic(const DParm &p, Rng r, Rec &out) {
  DBasis a = mk(p); auto P = [&]() { return randsym(r, a.Nbf()); }; int lm = std::max(p.l0, p.mmax ? p.l1 : 0);
  out.sub("one-electron", [&]() { out("overlap", a.overlap()); out("kinetic", a.kinetic()); out("nuclear", a.nuclear()); out("dipole", a.dipole_z()); out("quadrupole", a.quadrupole_zz()); out("Bz", a.Bz_field(0.3)); });
  int sym = (int)r.below(3); bool chol = r.below(2); Matrix Sinvh;
  out.sub("Sinvh", [&]() { Sinvh = a.Sinvh(false, 0); out("Sinvh", a.Sinvh(chol, sym)); out("symmetries", a.get_sym_idx(sym)); out("mirror", a.get_sym_mirror_idx(sym)); });
  out.sub("boundaries", [&]() { Matrix Q = P(); out("expanded", a.expand_boundaries(Q)); out("removed", a.remove_boundaries(a.expand_boundaries(Q))); out("pure", a.pure_indices()); });
  out.sub("other basis", [&]() { DParm q = p; q.nel++; DBasis b = mk(q); out("overlap between bases", a.overlap(b)); });
  out.sub("twoe", [&]() { a.compute_tei(true); Matrix Q = P(); out("coulomb", a.coulomb(Q)); out("exchange", a.exchange(Q)); });
  out.sub("evaluation", [&]() { size_t iel = r.below(a.get_rad_Nel()), ir = r.below(a.get_r(iel).size()); double cth = 2 * r.uni() - 1, phi = 6 * r.uni(); int m = (int)r.below(p.mmax + 1);
    out("bf", a.eval_bf(iel, ir, cth, phi)); out("bf m", a.eval_bf(iel, ir, cth, m)); out("bf point", Eigen::MatrixXcd(a.eval_bf(0.1 + r.uni() * (p.mumax - 0.2), cth, phi))); Eigen::MatrixXcd dr, dt, dp; a.eval_df(iel, ir, cth, phi, dr, dt, dp); out("df", dr); out("df", dt); out("df", dp); Matrix x, y, l; a.eval_df(iel, ir, cth, m, x, y); out("df m", x); out("df m", y); a.eval_lf(iel, ir, cth, m, l); out("lf m", l); out("rad", a.get_rad_bf(iel)); out("rad d", a.get_rad_df(iel)); out("rad d2", a.get_rad_d2f(iel)); out("list", a.bf_list(iel)); out("list m", a.bf_list_dummy(iel, m)); });
  out.sub("projection", [&]() { helfem::diatomic::twodquad::TwoDGrid g(&a, 4 * lm + 12); Vector e(2); e << 0.6, 1.7; int l = (int)r.below(2), m = l ? (int)r.below(std::min(2, p.mmax + 1)) : 0; auto w = (helfem::diatomic::twodquad::probe_t)0; for (int k = 0; k < 3; k++) { w = k == 2 ? helfem::diatomic::twodquad::PROBE_MIDDLE : k ? helfem::diatomic::twodquad::PROBE_RIGHT : helfem::diatomic::twodquad::PROBE_LEFT; out("gto", g.gto_projection(l, m, e, w)); out("gto overlap", g.gto_overlap(l, m, e, w)); out("sto", g.sto_projection(l, m, e, w)); out("sto overlap", g.sto_overlap(l, m, e, w)); }
    modelpotential::GSZAtom u(std::max(1, p.Z1)), v(std::max(1, p.Z2)); out("model potential", g.model_potential(&u, &v)); });
  out.sub("grid", [&]() { helfem::diatomic::dftgrid::DFTGrid g(&a, 4 * lm + 10, 4 * p.mmax + 5); rec_grid(out, r, g, Sinvh, false); });
  out.sub("grid pure m", [&]() { helfem::diatomic::dftgrid_purem::PureMDFTGrid g(&a, 4 * lm + 10); rec_grid(out, r, g, Sinvh, true); });
}
static void lib_calls(const AParm &p, const DParm &d, Rng r, Rec &out) {
  int need = 0; for (int n : NEEDS) need |= n;
  Objs o = build(p, d, need);
  int n = 12 + (int)r.below(12);
  for (int i = 0; i < n; i++) { int k = (int)r.below(NKIND); Rng q(r.next()); out.sub("call " + std::to_string(k), [&]() { out.r.push_back({"call " + std::to_string(k), one_call(o, k, q)}); }); }
}
static std::string rec_diff(const std::vector<std::pair<std::string, Res>> &a, const std::vector<std::pair<std::string, Res>> &b, std::string &name) {
  for (size_t i = 0; i < std::min(a.size(), b.size()); i++) {
    name = b[i].first;
    if (a[i].first != b[i].first) return "\"" + b[i].first + "\" instead of \"" + a[i].first + "\"";
    if (a[i].second.size() != b[i].second.size()) return b[i].first + ": size " + std::to_string(b[i].second.size()) + " instead of " + std::to_string(a[i].second.size());
    for (size_t k = 0; k < a[i].second.size(); k++) {
      double x = a[i].second[k], y = b[i].second[k];
      if (memcmp(&x, &y, sizeof x) && !(std::isnan(x) && std::isnan(y))) return b[i].first + ": element " + std::to_string(k) + " is " + hs::str(y) + " instead of " + hs::str(x);
    }
  }
  name = "results"; return a.size() == b.size() ? "" : "the number of results differs";
}
static void p21_lib(Ctx &c, const std::string &kind) {
  AParm p; DParm d; memset((void *)&d, 0, sizeof d);
  if (kind != "diatomic") p = aparm(c, 3, kind == "sadatom" ? 2 : 1);
  if (kind == "diatomic" || kind == "calls") d = dparm(c, 2, 1);
  if (kind == "atomic" && c.flag("off centre", 25)) { p.Zl = (int)c.knob("Zl", 0, 2); p.Zr = (int)c.knob("Zr", 0, 2); p.Rhalf = 0.7; }
  uint64_t seed = c.rng("calls").next(), mem = c.rng("memory").next();
  std::string dir = mkd(c, "l");
  auto eval = [&](int how, uint64_t s) {
    std::string f = dir + "/results"; unlink(f.c_str());
    Outcome o = in_child(dir, dir + ".log", [&]() {
      Rec out; Rng r(seed); io_memory(how, s);
      out.sub("construction", [&]() { if (kind == "atomic") lib_atomic(p, r, out); else if (kind == "sadatom") lib_sadatom(p, r, out); else if (kind == "diatomic") lib_diatomic(d, r, out); else lib_calls(p, d, r, out); });
      io_memory(0, 0);
      FILE *w = fopen(f.c_str(), "w");
      for (auto &x : out.r) { uint64_t n[2] = {x.first.size(), x.second.size()}; fwrite(n, sizeof n, 1, w); fwrite(x.first.data(), 1, n[0], w); fwrite(x.second.data(), 8, n[1], w); }
      fclose(w); fflush(stdout); _exit(0); return 0;
    });
    if (o.status) bad("killed: library " + kind, "the library was killed when memory first held " + std::string(MEMORY[how]) + ": " + o.why + " " + tail(o.log));
    std::vector<std::pair<std::string, Res>> v; std::string s2 = slurp_file(f); size_t i = 0;
    while (i + 16 <= s2.size()) { uint64_t n[2]; memcpy(n, &s2[i], 16); i += 16; std::string nm = s2.substr(i, n[0]); i += n[0]; Res x(n[1]); if (n[1]) memcpy(x.data(), &s2[i], 8 * n[1]); i += 8 * n[1]; v.push_back({nm, x}); }
    return v;
  };
  auto ref = eval(1, 0); int n = (int)c.knob("executions", 1, 3); probe(("library:" + kind).c_str());
  for (int i = 0; i < n; i++) {
    int how = (int)c.knob("memory" + std::to_string(i), 2, 5); if (!io_wants(i + 1)) continue;
    auto got = eval(how, mem + i); fault_fired((std::string("memory ") + MEMORY[how]).c_str());
    std::string name, d2 = rec_diff(ref, got, name);
    if (!d2.empty()) bad("library " + kind + " depends on what memory held: " + name, "when memory first held " + std::string(MEMORY[how]) + " instead of zeros, " + d2);
    probe("same results verified");
  }
  for (auto &x : ref) mix(x.second.data(), 8 * x.second.size());
}
#define L21(n) static void p21_lib_##n(Ctx &c) { p21_lib(c, #n); }
L21(atomic) L21(sadatom) L21(diatomic) L21(calls)
