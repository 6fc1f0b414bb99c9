// Reading and comparing the checkpoint files programs leave behind.
#pragma once
#include "common.h"
#include <hdf5.h>
#include <map>
#include <set>
#include <stdexcept>
// ------------------------------------------------------------ result files
struct DS { int cls = -1; std::vector<hsize_t> dims; std::vector<long double> f; std::string raw; };
typedef std::map<std::string, DS> H5;
static herr_t collect(hid_t, const char *n, const H5L_info_t *, void *v) { ((std::vector<std::string> *)v)->push_back(n); return 0; }
// every dataset of a file; throws if the file cannot be read
static H5 h5_read(const std::string &p) {
  H5 r; hid_t f = H5Fopen(p.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); if (f < 0) throw std::runtime_error("cannot be opened");
  std::vector<std::string> names; std::string err;
  if (H5Literate(f, H5_INDEX_NAME, H5_ITER_INC, nullptr, collect, &names) < 0) err = "cannot be listed";
  for (auto &n : names) {
    if (!err.empty()) break;
    hid_t d = H5Dopen2(f, n.c_str(), H5P_DEFAULT); if (d < 0) { err = n + " cannot be opened"; break; }
    hid_t t = H5Dget_type(d), s = H5Dget_space(d); DS x; x.cls = H5Tget_class(t);
    int nd = H5Sget_simple_extent_ndims(s); x.dims.resize(nd > 0 ? nd : 0); if (nd > 0) H5Sget_simple_extent_dims(s, x.dims.data(), nullptr);
    hssize_t np = H5Sget_simple_extent_npoints(s); size_t sz = H5Tget_size(t);
    herr_t e = 0;
    if (np > 0 && np < (1 << 26)) {
      if (x.cls == H5T_FLOAT || x.cls == H5T_INTEGER) { x.f.resize(np); e = H5Dread(d, H5T_NATIVE_LDOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, x.f.data()); if (e < 0 && x.cls == H5T_FLOAT) { std::vector<double> y(np); e = H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, y.data()); x.f.assign(y.begin(), y.end()); } }
      else { x.raw.resize(np * sz); e = H5Dread(d, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, &x.raw[0]); }
    }
    if (e < 0) err = n + " cannot be read";
    H5Sclose(s); H5Tclose(t); H5Dclose(d); r[n] = x;
  }
  H5Fclose(f);
  if (!err.empty()) throw std::runtime_error(err);
  return r;
}
// empty: the same; tol relative to the largest element
static std::string h5_diff(const H5 &a, const H5 &b, double tol, const std::set<std::string> &skip = {}) {
  for (auto &x : a) {
    if (skip.count(x.first)) continue;
    auto it = b.find(x.first); if (it == b.end()) return "entry " + x.first + " is missing";
    const DS &u = x.second, &v = it->second;
    if (u.cls != v.cls || u.dims != v.dims || u.f.size() != v.f.size()) return "entry " + x.first + " has another shape";
    if (u.raw != v.raw) return "entry " + x.first + " differs";
    long double s = 0; for (auto z : u.f) if (std::isfinite((double)z)) s = std::max(s, std::abs(z));
    for (size_t i = 0; i < u.f.size(); i++) if (!(u.f[i] == v.f[i]) && !(std::isnan((double)u.f[i]) && std::isnan((double)v.f[i])) && !(std::abs(u.f[i] - v.f[i]) <= tol * s))
      return "entry " + x.first + " element " + std::to_string(i) + " is " + hs::str((double)v.f[i]) + " instead of " + hs::str((double)u.f[i]);
  }
  for (auto &x : b) if (!a.count(x.first) && !skip.count(x.first)) return "entry " + x.first + " is extra";
  return "";
}
static bool is_h5(const std::string &t) { return t.size() >= 8 && !memcmp(t.data(), "\x89HDF\r\n\x1a\n", 8); }
