// Bases of random parameters and the calls made on them: shared by the OpenMP
// scenarios (omp.cpp) and the memory-contents ones (p21_lib.inc).
#pragma once
#include "common.h"
#include "atomic/basis.h"
#include "atomic/TwoDBasis.h"
#include "atomic/dftgrid.h"
#include "sadatom/basis.h"
#include "sadatom/dftgrid.h"
#include "sadatom/scf.h"
#include "diatomic/basis.h"
#include "diatomic/dftgrid.h"
#include "diatomic/dftgrid_purem.h"
#include "diatomic/twodquadrature.h"
#include "general/gaunt.h"
#include "general/model_potential.h"
#include "general/spherical_harmonics.h"
#include "general/sap.h"
#include "general/atomdb.h"
#include "legendre/Legendre.h"
#include "openorbitaloptimizer/scfsolver.hpp"
#include "helfem.h"


using namespace hs;
using namespace helfem;
typedef helfem::atomic::basis::TwoDBasis ABasis;
typedef helfem::sadatom::basis::TwoDBasis SBasis;
typedef helfem::diatomic::basis::TwoDBasis DBasis;

// ------------------------------------------------------------ basis makers
struct AParm { int Z, fam, nnodes, nel, lmax, mmax, nquad, igrid; double rmax; bool zeroder; int Zl = 0, Zr = 0; double Rhalf = 0; modelpotential::nuclear_model_t model = modelpotential::POINT_NUCLEUS; double Rrms = 0; };
[[maybe_unused]] static AParm aparm(Ctx &c, int maxel, int maxl) {
  AParm p;
  p.Z = (int)c.knob("Z", 1, 4);
  p.fam = family(c);
  p.nnodes = (int)c.knob("nnodes", 3, p.fam == 5 ? 3 : 4);
  p.nel = (int)c.knob("nel", 1, maxel);
  p.lmax = (int)c.knob("lmax", 0, maxl);
  p.mmax = (int)c.knob("mmax", 0, p.lmax);
  p.nquad = 5 * p.nnodes + (int)c.knob("xquad", 0, 4);
  p.igrid = (int)c.knob("igrid", 1, 4);
  p.rmax = 5.0 + (int)c.knob("rmax", 0, 20);
  p.zeroder = c.flag("zeroder", 20);
  // now and then one dimension is well beyond the usual
  int big = (int)c.knob("large", 0, 15);
  if (big == 1 && p.fam != 5) { p.nnodes = 5 + (int)c.knob("large nnodes", 0, 3); p.nel = std::min(p.nel, 2); p.lmax = std::min(p.lmax, 1); p.mmax = 0; }
  if (big == 2) { p.lmax = 3 + (int)c.knob("large l", 0, 2); p.mmax = p.lmax == 3 ? 1 : 0; p.nnodes = 3; p.nel = std::min(p.nel, 2); }
  if (big == 3) { p.nel = maxel + 2 + (int)c.knob("large nel", 0, 6); p.lmax = p.mmax = 0; p.nnodes = 3; }
  if (big == 4) { p.lmax = p.mmax = 2; p.nnodes = 3; p.nel = 1; }
  if (big >= 1 && big <= 4) { p.nquad = 5 * p.nnodes; sim::probe("large basis"); }
  return p;
}
static ABasis mk(const AParm &p) {
  Eigen::VectorXi lv, mv;
  helfem::atomic::basis::angular_basis(p.lmax, p.mmax, lv, mv);
  // off-centre nuclei and finite nuclei need an element boundary of their own
  Vector b = p.Rhalf > 0 || p.model != modelpotential::POINT_NUCLEUS ? helfem::atomic::basis::form_grid(p.model, p.Rrms, p.nel, p.rmax, p.igrid, 2.0, 1, 4, 2.0, p.Z, p.Zl, p.Zr, p.Rhalf) : helfem::atomic::basis::normal_grid(p.nel, p.rmax, p.igrid, 2.0);
  return ABasis(p.Z, p.model, p.Rrms, poly(p.fam, p.nnodes), p.zeroder, p.nquad, b, lv, mv, p.Zl, p.Zr, p.Rhalf);
}
static SBasis mks(const AParm &p) {
  Vector b = helfem::atomic::basis::normal_grid(p.nel, p.rmax, p.igrid, 2.0);
  return SBasis(p.Z, p.model, p.Rrms, poly(p.fam, p.nnodes), p.zeroder, p.nquad, b, p.lmax);
}
struct DParm { int Z1, Z2, fam, nnodes, nel, mmax, l0, l1, nquad; double Rhalf, mumax; int l2 = 2; bool big = false, mirror = false; };
static DParm dparm(Ctx &c, int maxel, int maxl) {
  DParm p;
  p.Z1 = (int)c.knob("Z1", 0, 3); p.Z2 = (int)c.knob("Z2", 1, 3);
  p.fam = family(c);
  p.nnodes = (int)c.knob("nnodes", 3, p.fam == 5 ? 3 : 4);
  p.nel = (int)c.knob("nel", 1, maxel);
  p.l0 = (int)c.knob("l0", 0, maxl); p.mmax = (int)c.knob("mmax", 0, 1); p.l1 = (int)c.knob("l1", 1, 2);
  p.nquad = 16 * (int)c.knob("nquad", 1, 2) + (int)c.knob("xquad", 0, 1); // orders whose refinement ends early
  p.Rhalf = 0.5 + 0.1 * (int)c.knob("R", 0, 20);
  p.mumax = 2.0 + 0.5 * (int)c.knob("mumax", 0, 4);
  p.mirror = c.flag("mirror", 25);
  int big = (int)c.knob("large", 0, 15);
  if (big == 1 && p.fam != 5) { p.nnodes = 5 + (int)c.knob("large nnodes", 0, 2); p.nel = 1; p.mmax = 0; p.l0 = std::min(p.l0, 1); p.big = true; }
  if (big == 2) { p.l0 = 3 + (int)c.knob("large l", 0, 1); p.mmax = 0; p.nnodes = 3; p.nel = 1; p.big = true; }
  if (big == 3) { p.nel = maxel + 2 + (int)c.knob("large nel", 0, 3); p.l0 = p.mmax = 0; p.nnodes = 3; p.big = true; }
  if (big == 4) { p.mmax = 2; p.l0 = 0; p.l1 = 1; p.l2 = 2; p.nnodes = 3; p.nel = 1; p.big = true; }
  if (p.big) sim::probe("large basis");
  return p;
}
static DBasis mk(const DParm &p) {
  Eigen::VectorXi lm(p.mmax + 1); lm(0) = p.l0; if (p.mmax > 0) lm(1) = p.l1; if (p.mmax > 1) lm(2) = p.l2;
  Eigen::VectorXi lv, mv; helfem::diatomic::basis::lm_to_l_m(lm, lv, mv);
  Vector b = helfem::atomic::basis::normal_grid(p.nel, p.mumax, 1, 1.0);
  DBasis a(p.Z1, p.Z2, p.Rhalf, poly(p.fam, p.nnodes), p.nquad, b, lv, mv, true);
  a.set_absm_symmetric(p.mirror);
  return a;
}
static Cube randcube(sim::Rng &r, int n, Eigen::Index nb) { Cube P(n); for (auto &m : P) m = randsym(r, nb); return P; }
// positive semidefinite density, the kind an SCF produces
static Matrix dens(sim::Rng &r, const Matrix &Sinvh, int nocc, double occ) {
  Matrix C = Sinvh * randmat(r, Sinvh.cols(), std::min<Eigen::Index>(nocc, Sinvh.cols()));
  return occ * C * C.transpose();
}


// ------------------------------------------------------------ calls
typedef std::vector<double> Res;
struct Objs {
  std::unique_ptr<SBasis> s; std::unique_ptr<ABasis> a; std::unique_ptr<DBasis> d;
  std::unique_ptr<helfem::atomic::basis::FEMRadialBasis> rad;
  std::unique_ptr<atomdb::Atom> atom; std::unique_ptr<modelpotential::ModelPotential> pot[4];
  std::unique_ptr<helfem::gaunt::Gaunt> g;
};
static void push(Res &r, const Matrix &m) { r.insert(r.end(), m.data(), m.data() + m.size()); }
static void push(Res &r, const Eigen::MatrixXcd &m) { for (Eigen::Index i = 0; i < m.size(); i++) { r.push_back(m.data()[i].real()); r.push_back(m.data()[i].imag()); } }
static Res one_call(const Objs &o, int kind, sim::Rng r) {
  Res x;
  auto u = [&](double lo, double hi) { return lo + (hi - lo) * r.uni(); };
  switch (kind) {
    case 0: { int L = (int)r.below(8), M = (int)r.below(L + 1); std::vector<double> b((L + 1) * (M + 1)); legendre::plm(b.data(), L, M, u(1.01, 4)); x = b; break; }
    case 1: { int L = (int)r.below(8), M = (int)r.below(L + 1); std::vector<double> b((L + 1) * (M + 1)); legendre::qlm(b.data(), L, M, u(1.01, 4)); x = b; break; }
    case 2: { int l = (int)r.below(5), m = (int)r.below(2 * l + 1) - l; auto v = spherical_harmonics(l, m, u(-1, 1), u(0, 6)); x = {v.real(), v.imag()}; break; }
    case 3: { int L = (int)r.below(4), l = (int)r.below(4); for (int M = -L; M <= L; M++) for (int m = -l; m <= l; m++) for (int lp = 0; lp < 4; lp++) x.push_back(o.g->coeff(L, M, l, m, lp)); x.push_back(gaunt::gaunt_coefficient(2, 1, 2, 1, 2, 0)); x.push_back(o.g->cosine2_coupling(2, 1, 2, 1)); break; }
    case 4: { int k = (int)r.below(4); for (int i = 0; i < 4; i++) x.push_back(o.pot[k]->V(u(0.01, 8))); break; }
    case 5: { double rr = u(0.01, 8); x = {o.atom->density(rr), o.atom->hartree_screening(rr), o.atom->density_gradient(rr), o.atom->enclosed_charge(rr)}; break; }
    case 6: { double rr = u(0.01, 8); static const int f[][2] = {{1, 0}, {1, 7}, {101, 130}}; int k = (int)r.below(3); x = {o.atom->xc_screening(rr, f[k][0], f[k][1]), o.atom->effective_charge(rr, f[k][0], f[k][1])}; break; }
    case 7: { size_t iel = r.below(o.rad->Nel()); push(x, o.rad->get_bf(iel)); push(x, o.rad->get_df(iel)); push(x, o.rad->get_lf(iel)); push(x, Matrix(o.rad->get_r(iel))); push(x, Matrix(o.rad->get_wrad(iel))); break; }
    case 8: { size_t iel = r.below(o.rad->Nel()); push(x, o.rad->radial_integral((int)r.below(3), iel)); push(x, o.rad->kinetic(iel)); push(x, o.rad->nuclear(iel)); break; }
    case 9: { size_t iel = r.below(o.a->get_rad_Nel()); push(x, o.a->eval_bf(iel, u(-1, 1), u(0, 6))); Eigen::MatrixXcd dr, dt, dp; o.a->eval_df(iel, u(-1, 1), u(0, 6), dr, dt, dp); push(x, dr); push(x, dt); push(x, dp); break; }
    case 10: { size_t iel = r.below(o.d->get_rad_Nel()); push(x, o.d->eval_bf(iel, r.below(3), u(-1, 1), u(0, 6))); push(x, o.d->get_rad_bf(iel)); break; }
    case 11: { size_t iel = r.below(o.s->get_rad_Nel()); push(x, o.s->eval_bf(iel)); push(x, o.s->eval_df(iel)); push(x, o.s->eval_lf(iel)); break; }
    case 12: { x = {sap_effective_charge(1 + (int)r.below(10), u(0.01, 8))}; break; }
    case 13: { int z = 1 + (int)r.below(atomdb::max_Z() > 3 ? 3 : atomdb::max_Z()); modelpotential::SAPFEAtom p(z); x = {p.V(u(0.01, 8))}; push(x, Matrix(atomdb::element_boundaries())); break; }
    case 14: { int l = (int)r.below(5); Vector rr(3); for (int i = 0; i < 3; i++) rr(i) = u(0.01, 9); (void)l; Matrix C = Matrix::Identity(o.rad->Nbf(), 2); for (int i = 0; i < 3; i++) push(x, Matrix(o.rad->eval_orbs(C, rr(i)))); break; }
    case 15: { push(x, o.rad->erfc_integral((int)r.below(2), 0.4, 0, 0)); break; }
    case 16: { push(x, o.rad->twoe_integral((int)r.below(3), r.below(o.rad->Nel()))); push(x, o.rad->yukawa_integral((int)r.below(2), 0.5, 0)); break; }
    case 17: { Vector c = Vector::Ones(o.s->Nbf()); x = {o.s->nuclear_density(Matrix::Identity(o.s->Nbf(), o.s->Nbf()))}; push(x, Matrix(o.s->radii())); break; }
  }
  return x;
}
static const int NKIND = 18;
static Objs build(const AParm &p, const DParm &d, int what) {
  Objs o;
  if (what & 1) { o.s.reset(new SBasis(mks(p))); }
  if (what & 2) o.a.reset(new ABasis(mk(p)));
  if (what & 4) o.d.reset(new DBasis(mk(d)));
  if (what & 8) { Vector b = helfem::atomic::basis::normal_grid(p.nel, p.rmax, p.igrid, 2.0); polynomial_basis::FiniteElementBasis fem(poly(p.fam, p.nnodes), b, true, false, true, false); o.rad.reset(new helfem::atomic::basis::FEMRadialBasis(fem, p.nquad)); }
  if (what & 16) o.atom.reset(new atomdb::Atom(std::min(p.Z, 3)));
  if (what & 32) { int z = std::min(p.Z, 3); o.pot[0].reset(new modelpotential::GSZAtom(z)); o.pot[1].reset(new modelpotential::TFAtom(z)); o.pot[2].reset(new modelpotential::SAPAtom(z)); o.pot[3].reset(new modelpotential::SAPFEAtom(z)); }
  if (what & 64) o.g.reset(new gaunt::Gaunt(4, 4, 4));
  return o;
}
static const int NEEDS[NKIND] = {0, 0, 0, 64, 32, 16, 16, 8, 8, 2, 4, 1, 0, 0, 8, 8, 8, 1};
