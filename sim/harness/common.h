// Shared helpers of the simulation harnesses.
#pragma once
#include "campaign.h"
#include <Matrix.h>
#include <PolynomialBasis.h>
#include <RadialBasis.h>
#include <FiniteElementBasis.h>
#include <cmath>
#include <complex>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace hs {
using helfem::Matrix;
using helfem::Vector;
using helfem::Cube;
using sim::Ctx;

inline void mix(const void *p, size_t n) {
  if (!sim::g_sh) return;
  uint64_t h = sim::g_sh->result_hash ^ 0xcbf29ce484222325ull;
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001B3ull; }
  sim::g_sh->result_hash = h;
}
inline void mixm(const Matrix &m) { mix(m.data(), sizeof(double) * m.size()); }

inline std::string str(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }

[[noreturn]] inline void mismatch(const std::string &label, const std::string &why) {
  sim::violation(sim::MISMATCH, "mismatch " + label, label + ": " + why);
}
// got: simulated schedule; ref: one thread. Up to rounding of the sums.
inline void same(const std::string &label, const Matrix &got, const Matrix &ref, double tol = 1e-10) {
  if (got.rows() != ref.rows() || got.cols() != ref.cols())
    mismatch(label, "shape " + std::to_string(got.rows()) + "x" + std::to_string(got.cols()) + " under the schedule, " + std::to_string(ref.rows()) + "x" + std::to_string(ref.cols()) + " with one thread");
  mixm(got);
  double s = 0;
  for (Eigen::Index i = 0; i < ref.size(); i++) if (std::isfinite(ref.data()[i])) s = std::max(s, std::abs(ref.data()[i]));
  if (s == 0) s = 1;
  for (Eigen::Index i = 0; i < ref.size(); i++) {
    double a = got.data()[i], b = ref.data()[i];
    if (std::isnan(a) && std::isnan(b)) continue;
    if (!(std::abs(a - b) <= tol * s) && !(a == b))
      mismatch(label, "element " + std::to_string(i) + " is " + str(a) + " under the schedule, " + str(b) + " with one thread (scale " + str(s) + ")");
  }
}
inline void same(const std::string &label, const Cube &got, const Cube &ref, double tol = 1e-10) {
  if (got.size() != ref.size()) mismatch(label, "number of slices differs");
  // one scale for the whole stack
  double s = 0; for (auto &m : ref) if (m.size()) s = std::max(s, m.cwiseAbs().maxCoeff());
  for (size_t i = 0; i < got.size(); i++) {
    double si = ref[i].size() ? ref[i].cwiseAbs().maxCoeff() : 0;
    same(label, got[i], ref[i], si > 0 ? tol * std::max(1.0, s / si) : tol);
  }
}
inline void same(const std::string &label, double got, double ref, double tol = 1e-10, double scale = 0) {
  Matrix a(1, 1), b(1, 1); a(0, 0) = got; b(0, 0) = ref;
  double t = tol; if (scale > 0 && ref != 0) t = tol * std::max(1.0, scale / std::abs(ref));
  same(label, a, b, t);
}
inline void exact(const std::string &label, const Matrix &got, const Matrix &ref) {
  if (got.rows() != ref.rows() || got.cols() != ref.cols()) mismatch(label, "shape differs");
  mixm(got);
  if (got.size() && memcmp(got.data(), ref.data(), sizeof(double) * got.size())) {
    for (Eigen::Index i = 0; i < ref.size(); i++)
      if (memcmp(got.data() + i, ref.data() + i, sizeof(double)) && !(std::isnan(got.data()[i]) && std::isnan(ref.data()[i])))
        mismatch(label, "element " + std::to_string(i) + " is " + str(got.data()[i]) + " when calls overlap, " + str(ref.data()[i]) + " when made one after another");
  }
}
// an identity that must hold for whatever schedule produced the numbers
inline void holds(const std::string &label, double a, double b, double tol, double scale) {
  if (!(std::abs(a - b) <= tol * std::max(scale, 1e-300)))
    sim::violation(sim::INVARIANT, "invariant " + label, label + ": " + str(a) + " != " + str(b));
}

inline Matrix randsym(sim::Rng &r, Eigen::Index n, double s = 1) {
  Matrix m(n, n);
  for (Eigen::Index j = 0; j < n; j++) for (Eigen::Index i = 0; i <= j; i++) { double x = s * (2 * r.uni() - 1); m(i, j) = x; m(j, i) = x; }
  return m;
}
inline Matrix randmat(sim::Rng &r, Eigen::Index n, Eigen::Index k, double s = 1) {
  Matrix m(n, k);
  for (Eigen::Index j = 0; j < k; j++) for (Eigen::Index i = 0; i < n; i++) m(i, j) = s * (2 * r.uni() - 1);
  return m;
}

// Schedule and environment of a simulated run, all from the seed.
inline sim::Options options(Ctx &c, const std::string &pfx = "") {
  sim::Options o;
  int big = (int)c.knob(pfx + "bigteam", 0, 5);
  o.nthreads = (int)c.knob(pfx + "threads", 2, big == 5 ? 13 : 6);
  o.strategy = (int)c.knob(pfx + "strategy", 0, 3);
  int e = (int)c.knob(pfx + "interval", 0, 6);
  static const double iv[] = {60, 250, 1000, 4000, 16000, 60000, 250000};
  o.mean_interval = iv[e];
  int h = (int)c.knob(pfx + "hot", 0, 3);
  static const double ph[] = {0, 0.0005, 0.004, 0.02};
  o.p_hot = ph[h];
  o.p_undersize = c.flag(pfx + "undersize", 20) ? 0.35 : 0;
  o.permute_chunks = c.flag(pfx + "permute", 50);
  o.max_levels = c.flag(pfx + "nested", 15) ? 2 : 1;
  if (o.max_levels == 2 && o.nthreads > 4) o.nthreads = 4;
  o.sched_seed = c.rng(pfx + "schedule").next();
  o.replay = c.replay;
  o.decisions = c.decisions;
  return o;
}
inline std::shared_ptr<const helfem::polynomial_basis::PolynomialBasis> poly(int primbas, int nnodes) {
  return std::shared_ptr<const helfem::polynomial_basis::PolynomialBasis>(helfem::polynomial_basis::get_basis(primbas, nnodes));
}
// primitive basis family from a knob: 3 Legendre, 4 LIP, 5 HIP (as on the command line)
inline int family(Ctx &c) { static const int f[] = {4, 4, 3, 5}; return f[c.knob("family", 0, 3)]; }
}
