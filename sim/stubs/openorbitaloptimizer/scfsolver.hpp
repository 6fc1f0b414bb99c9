// Stand-in for OpenOrbitalOptimizer (not available offline). Same interface
// as far as HelFEM uses it; the algorithm is a fixed number of damped
// Roothaan steps that evaluates a whole batch of trial densities per step
// through the batched Fock builder, and never takes a data-dependent branch
// on nearly equal numbers, so that rounding differences stay small.
#pragma once
#include <Eigen/Core>
#include <Eigen/Eigenvalues>
#include <algorithm>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <numeric>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
namespace OpenOrbitalOptimizer {
using IndexVector = Eigen::VectorXi;
template <typename T> using Matrix = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
template <typename T> using Vector = Eigen::Matrix<T, Eigen::Dynamic, 1>;
template <typename T> using Orbitals = std::vector<Matrix<T>>;
template <typename T> using OrbitalOccupations = std::vector<Vector<T>>;
template <typename T> using OrbitalEnergies = std::vector<Vector<T>>;
template <typename To, typename Tb> using DensityMatrix = std::pair<Orbitals<To>, OrbitalOccupations<Tb>>;
template <typename T> using FockMatrix = std::vector<Matrix<T>>;
template <typename To, typename Tb> using FockBuilderReturn = std::pair<Tb, FockMatrix<To>>;
template <typename To, typename Tb> using FockBuilder = std::function<FockBuilderReturn<To, Tb>(const DensityMatrix<To, Tb> &)>;
template <typename To, typename Tb> using BatchedFockBuilder =
    std::function<std::vector<FockBuilderReturn<To, Tb>>(const std::vector<DensityMatrix<To, Tb>> &)>;

// What the stand-in solver saw, for the simulation's oracle.
struct Trace {
  std::vector<double> energies;
  std::vector<Eigen::MatrixXd> focks;
  std::vector<Eigen::MatrixXd> initial_orbitals;
  std::vector<Eigen::VectorXd> initial_occupations;
  bool initialized_with_orbitals = false;
};
inline Trace *&trace() { static Trace *t = nullptr; return t; }
inline int &steps() { static int n = 3; return n; }
inline int &batch() { static int n = 3; return n; }
inline bool &cold() { static bool b = false; return b; } // the first builds already come in a batch

template <typename To, typename Tb> class SCFSolver {
  IndexVector nblk; Vector<Tb> maxocc, npart; FockBuilder<To, Tb> fb; BatchedFockBuilder<To, Tb> bfb;
  std::vector<std::string> desc; Vector<Tb> fixed;
  DensityMatrix<To, Tb> cur; FockMatrix<To> F; bool have_orb = false; double E = 0;

  void occupy(DensityMatrix<To, Tb> &dm, const OrbitalEnergies<Tb> &e) const {
    size_t b0 = 0;
    for (Eigen::Index t = 0; t < nblk.size(); t++) {
      size_t b1 = b0 + nblk(t);
      for (size_t b = b0; b < b1; b++) dm.second[b] = Vector<Tb>::Zero(e[b].size());
      if (fixed.size()) {
        for (size_t b = b0; b < b1; b++) {
          Tb left = fixed(b);
          for (Eigen::Index i = 0; i < e[b].size() && left > 0; i++) { Tb o = std::min(left, maxocc(b)); dm.second[b](i) = o; left -= o; }
        }
      } else {
        std::vector<std::pair<Tb, std::pair<size_t, Eigen::Index>>> all;
        for (size_t b = b0; b < b1; b++) for (Eigen::Index i = 0; i < e[b].size(); i++) all.push_back({e[b](i), {b, i}});
        std::stable_sort(all.begin(), all.end(), [](const auto &x, const auto &y) { return x.first < y.first; });
        Tb left = npart(t);
        for (auto &x : all) { if (left <= 0) break; Tb o = std::min(left, maxocc(x.second.first)); dm.second[x.second.first](x.second.second) = o; left -= o; }
      }
      b0 = b1;
    }
  }
  DensityMatrix<To, Tb> diagonalise(const FockMatrix<To> &f) const {
    DensityMatrix<To, Tb> dm; dm.first.resize(f.size()); dm.second.resize(f.size());
    OrbitalEnergies<Tb> e(f.size());
    for (size_t b = 0; b < f.size(); b++) {
      if (!f[b].size()) { e[b].resize(0); dm.first[b] = f[b]; continue; } // a symmetry without basis functions
      Matrix<To> s = (f[b] + f[b].transpose()) / 2;
      Eigen::SelfAdjointEigenSolver<Matrix<To>> es(s);
      e[b] = es.eigenvalues(); dm.first[b] = es.eigenvectors();
      for (Eigen::Index i = 0; i < dm.first[b].cols(); i++) { Eigen::Index m; dm.first[b].col(i).cwiseAbs().maxCoeff(&m); if (dm.first[b](m, i) < 0) dm.first[b].col(i) *= -1; }
    }
    occupy(dm, e);
    return dm;
  }
 public:
  SCFSolver(const IndexVector &n, const Vector<Tb> &mo, const Vector<Tb> &np, const FockBuilder<To, Tb> &f, const std::vector<std::string> &d)
      : nblk(n), maxocc(mo), npart(np), fb(f), desc(d) {}
  void set_batched_fock_builder(const BatchedFockBuilder<To, Tb> &b) { bfb = b; }
  template <typename V> void set(const std::string &, const V &) {}
  void fixed_number_of_particles_per_block(const Vector<Tb> &f) { fixed = f; }
  void initialize_with_fock(const FockMatrix<To> &f) { F = f; cur = diagonalise(f); }
  void initialize_with_orbitals(const Orbitals<To> &o, const OrbitalOccupations<Tb> &n) {
    cur = {o, n}; have_orb = true;
    if (trace()) { trace()->initialized_with_orbitals = true; trace()->initial_orbitals.assign(o.begin(), o.end()); trace()->initial_occupations.assign(n.begin(), n.end()); }
  }
  void print_citation() const {}
  void run() {
    std::vector<FockBuilderReturn<To, Tb>> r;
    auto note = [](const FockBuilderReturn<To, Tb> &x) {
      if (!trace()) return;
      trace()->energies.push_back((double)x.first);
      for (auto &m : x.second) trace()->focks.push_back(m.template cast<double>());
    };
    FockBuilderReturn<To, Tb> one;
    if (cold() && bfb) {
      std::vector<DensityMatrix<To, Tb>> dms;
      for (int k = 0; k < batch() + 1; k++) { dms.push_back(cur); for (auto &v : dms.back().second) v *= Tb(1) - Tb(0.03) * k; }
      r = bfb(dms); if (r.size() != dms.size()) throw std::logic_error("batched Fock builder returned a wrong number of results");
      for (auto &x : r) note(x);
      one = r[0];
    } else { one = fb(cur); note(one); }
    FockMatrix<To> Fold = one.second; E = one.first;
    for (int it = 0; it < steps(); it++) {
      std::vector<DensityMatrix<To, Tb>> dms;
      DensityMatrix<To, Tb> nx = diagonalise(Fold);
      for (int k = 0; k < batch(); k++) {
        // trial k: the orbitals of step it, with occupation scaled in a fixed way
        DensityMatrix<To, Tb> d = nx;
        for (auto &v : d.second) v *= Tb(1) - Tb(0.03) * k;
        dms.push_back(d);
      }
      if (bfb) r = bfb(dms); else { r.clear(); for (auto &d : dms) r.push_back(fb(d)); }
      if (r.size() != dms.size()) throw std::logic_error("batched Fock builder returned a wrong number of results");
      for (auto &x : r) note(x);
      for (size_t b = 0; b < Fold.size(); b++) Fold[b] = 0.6 * Fold[b] + 0.4 * r[0].second[b];
      cur = nx; E = r[0].first;
    }
    F = Fold;
  }
  Orbitals<To> get_orbitals() const { return cur.first; }
  OrbitalOccupations<Tb> get_orbital_occupations() const { return cur.second; }
  FockMatrix<To> get_fock_matrix() const { return F; }
  double get_energy() const { return E; }
  bool converged() const { return true; }
};
}
