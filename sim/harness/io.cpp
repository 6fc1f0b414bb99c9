// Simulated histories of the file and clock layer (properties P10-P17).
#include "common.h"
#include "simos.h"
#include <checkpoint.h>
#include <eigen_io.h>
#include <scf_helpers.h>
#include <timer.h>
#include <ModelPotential.h>
#include <atomic/TwoDBasis.h>
#include <atomic/basis.h>
#include <diatomic/basis.h>
#include <sadatom/basis.h>
#include <sadatom/scf.h>
#include <openorbitaloptimizer/scfsolver.hpp>
#include <grid.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fstream>
#include <helfem.h>
using namespace hs;
using namespace sim;
using namespace helfem;
typedef _Float128 f128;

namespace sim { void prepare_child(Ctx &) { helfem::set_verbosity(false); H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); } }

[[noreturn]] static void bad(const std::string &sig, const std::string &msg) { violation(INVARIANT, sig, msg); }

// ------------------------------------------------------------ typed values
enum Ty { D = 0, L, Q, I, H, B, S, VD, VL, VQ, VH, MD, ML, MQ, CD, CL, CQ, MI, NTY };
static const char *tyname[NTY] = {"double", "long double", "_Float128", "int", "hsize_t", "bool", "string", "vector<double>", "vector<long double>", "vector<_Float128>", "vector<hsize_t>", "Mat<double>", "Mat<long double>", "Mat<_Float128>", "Vec<double>", "Vec<long double>", "Vec<_Float128>", "MatrixXi"};
struct Val { Ty t = D; long r = 1, c = 1; std::vector<f128> q; std::vector<long long> i; std::vector<unsigned long long> u; std::vector<std::string> raw; std::string s; };
static int cls(Ty t) { switch (t) { case I: case H: case B: case VH: case MI: return 0; case S: return 2; default: return 1; } }
static int rnk(Ty t) { switch (t) { case D: case L: case Q: case I: case H: case B: return 0; case VD: case VL: case VQ: case VH: case S: return 1; default: return 2; } }
static int prec(Ty t) { switch (t) { case D: case VD: case MD: case CD: return 0; case L: case VL: case ML: case CL: return 1; default: return 2; } }
template <typename T> std::string rawof(const T &x) { size_t n = sizeof(T) == 8 ? 8 : std::is_same<T, long double>::value ? 10 : 16; return std::string((const char *)&x, n); }
template <typename T> void addf(Val &v, const T &x) { v.q.push_back((f128)x); v.raw.push_back(rawof(x)); }

static f128 rnd(Rng &r, int p) {
  switch (r.below(14)) {
    case 0: return 0; case 1: return -(f128)0.0L; case 2: return 1; case 3: return (f128)std::numeric_limits<double>::max(); case 4: return (f128)std::numeric_limits<double>::denorm_min() * (f128)(1 + r.below(9));
    case 5: return (f128)std::numeric_limits<double>::min(); case 6: return p == 0 ? (f128)3 : (f128)std::numeric_limits<long double>::max() * (f128)0.5;
    case 7: return p == 0 ? (f128)-7 : (f128)std::numeric_limits<long double>::denorm_min() * 5;
    default: { f128 x = (f128)(double)(2 * r.uni() - 1); if (p >= 1) x += (f128)r.uni() * (f128)0x1p-54; if (p == 2) x += (f128)r.uni() * (f128)0x1p-70; int e = (int)r.below(9); static const double sc[] = {1, 1, 1, 1e-8, 1e8, 1e100, 1e-100, 1e-250, 12345.678}; return x * (f128)sc[e]; }
  }
}
template <typename T> T spec(Rng &r, int p) {
  if (r.below(40) == 0) { switch (r.below(3)) { case 0: return (T)std::numeric_limits<double>::infinity(); case 1: return (T)-std::numeric_limits<double>::infinity(); default: return (T)std::numeric_limits<double>::quiet_NaN(); } }
  return (T)rnd(r, p);
}
static long dim(Rng &r, bool big) { int k = (int)r.below(10); if (k == 0) return 0; if (k == 1) return 1; if (big && k == 2) return 60 + (long)r.below(140); return 1 + (long)r.below(7); }
template <typename T> void fillv(Val &v, Rng &r, int p, long n) { for (long k = 0; k < n; k++) addf<T>(v, spec<T>(r, p)); }
static void fillf(Val &v, Rng &r, long n) { if (prec(v.t) == 0) fillv<double>(v, r, 0, n); else if (prec(v.t) == 1) fillv<long double>(v, r, 1, n); else fillv<f128>(v, r, 2, n); }
static Val gen(Rng &r, Ty t, bool big) {
  Val v; v.t = t;
  switch (t) {
    case D: case L: case Q: fillf(v, r, 1); break;
    case I: { static const long long x[] = {0, 1, -1, 2147483647ll, -2147483648ll, 42, 255, 256, 65536, -300}; v.i.push_back(r.below(2) ? x[r.below(10)] : (int)(uint32_t)r.next()); break; }
    case H: { static const unsigned long long x[] = {0, 1, 0xffffffffffffffffull, 0x80000000ull, 0x7fffffffull, 255, 256, 1ull << 40, 1ull << 63}; v.u.push_back(r.below(2) ? x[r.below(9)] : r.next()); break; }
    case B: v.i.push_back((int)r.below(2)); break;
    case S: { long n = (long)r.below(6) == 0 ? 0 : r.below(big ? 3000 : 24); for (long k = 0; k < n; k++) { int z = (int)r.below(20); v.s.push_back(z == 0 ? '\0' : z == 1 ? (char)(128 + r.below(128)) : z == 2 ? '\n' : (char)(32 + r.below(95))); } break; }
    case VD: case VL: case VQ: v.r = dim(r, big); if (big && r.below(6) == 0) v.r = 9000 + r.below(4000); fillf(v, r, v.r); break;
    case VH: v.r = dim(r, big); for (long k = 0; k < v.r; k++) v.u.push_back(r.below(3) ? r.below(1000) : r.next()); break;
    case MD: case ML: case MQ: v.r = dim(r, big); v.c = dim(r, big); fillf(v, r, v.r * v.c); break;
    case CD: case CL: case CQ: v.r = dim(r, big); v.c = 1; fillf(v, r, v.r); break;
    case MI: v.r = dim(r, big); v.c = dim(r, big); for (long k = 0; k < v.r * v.c; k++) v.i.push_back(r.below(3) ? (long long)r.below(100) - 50 : (int)(uint32_t)r.next()); break;
    default: break;
  }
  return v;
}
template <typename T> T elem(const Val &v, size_t k) { T x; memset(&x, 0, sizeof x); memcpy(&x, v.raw[k].data(), v.raw[k].size()); return x; }
template <typename T> void put(Checkpoint &c, const std::string &n, const Val &v) {
  int rk = rnk(v.t);
  if (rk == 0) { c.write<T>(n, elem<T>(v, 0)); return; }
  if (rk == 1) { std::vector<T> x(v.r); for (long k = 0; k < v.r; k++) x[k] = elem<T>(v, k); c.write<T>(n, x); return; }
  if (v.t == CD || v.t == CL || v.t == CQ) { Vec<T> x(v.r); for (long k = 0; k < v.r; k++) x(k) = elem<T>(v, k); c.write<T>(n, x); return; }
  Mat<T> x(v.r, v.c); for (long k = 0; k < v.r * v.c; k++) x.data()[k] = elem<T>(v, k); c.write<T>(n, x);
}
static void put(Checkpoint &c, const std::string &n, const Val &v) {
  switch (v.t) {
    case I: c.write(n, (int)v.i[0]); break;
    case H: c.write(n, (hsize_t)v.u[0]); break;
    case B: c.write(n, (bool)v.i[0]); break;
    case S: c.write(n, v.s); break;
    case VH: { std::vector<hsize_t> x(v.u.begin(), v.u.end()); c.write(n, x); break; }
    case MI: { Eigen::MatrixXi x(v.r, v.c); for (long k = 0; k < v.r * v.c; k++) x.data()[k] = (int)v.i[k]; c.write(n, x); break; }
    default: if (prec(v.t) == 0) put<double>(c, n, v); else if (prec(v.t) == 1) put<long double>(c, n, v); else put<f128>(c, n, v);
  }
}
template <typename T> Val getf(Checkpoint &c, const std::string &n, Ty t) {
  Val v; v.t = t; int rk = rnk(t);
  if (rk == 0) { T x = (T)-777.25; c.read<T>(n, x); addf(v, x); return v; }
  if (rk == 1) { std::vector<T> x(3, (T)-777.25); c.read<T>(n, x); v.r = (long)x.size(); for (auto &y : x) addf(v, y); return v; }
  if (t == CD || t == CL || t == CQ) { Vec<T> x = Vec<T>::Constant(2, (T)-777.25); c.read<T>(n, x); v.r = x.size(); for (long k = 0; k < v.r; k++) addf(v, x(k)); return v; }
  Mat<T> x = Mat<T>::Constant(2, 2, (T)-777.25); c.read<T>(n, x); v.r = x.rows(); v.c = x.cols(); for (long k = 0; k < v.r * v.c; k++) addf(v, x.data()[k]); return v;
}
static Val get(Checkpoint &c, const std::string &n, Ty t) {
  Val v; v.t = t;
  switch (t) {
    case I: { int x = -777; c.read(n, x); v.i.push_back(x); return v; }
    case H: { hsize_t x = 777777; c.read(n, x); v.u.push_back(x); return v; }
    case B: { bool x = true; c.read(n, x); unsigned char y; memcpy(&y, &x, 1); v.i.push_back(y); return v; }
    case S: { std::string x = "stale"; c.read(n, x); v.s = x; return v; }
    case VH: { std::vector<hsize_t> x(3, 777); c.read(n, x); v.r = (long)x.size(); v.u.assign(x.begin(), x.end()); return v; }
    case MI: { Eigen::MatrixXi x = Eigen::MatrixXi::Constant(2, 2, -777); c.read(n, x); v.r = x.rows(); v.c = x.cols(); for (long k = 0; k < v.r * v.c; k++) v.i.push_back(x.data()[k]); return v; }
    default: return prec(t) == 0 ? getf<double>(c, n, t) : prec(t) == 1 ? getf<long double>(c, n, t) : getf<f128>(c, n, t);
  }
}
static std::string show(const Val &v) {
  std::ostringstream o; o << tyname[v.t] << " " << v.r << "x" << v.c << " [";
  for (size_t k = 0; k < v.q.size() && k < 3; k++) o << str((double)v.q[k]) << " ";
  for (size_t k = 0; k < v.i.size() && k < 3; k++) o << v.i[k] << " ";
  for (size_t k = 0; k < v.u.size() && k < 3; k++) o << v.u[k] << " ";
  if (v.t == S) { o << v.s.size() << " bytes"; }
  o << "]"; return o.str();
}
// what reading `w` as type t must give
enum Want { REFUSE, EXACT, WIDEN, ANY };
static Want want(const Val &w, Ty t) {
  if (w.t == t) return EXACT;
  if (cls(w.t) != cls(t) || rnk(w.t) != rnk(t)) return REFUSE;
  if (cls(t) == 1) {
    bool col = t == CD || t == CL || t == CQ;
    if (rnk(t) == 2 && col && w.c != 1) return REFUSE;
    if (prec(t) == prec(w.t)) return EXACT;
    return prec(t) > prec(w.t) ? WIDEN : ANY;
  }
  if (cls(t) == 0 && rnk(t) == 0) {
    // integers of different width: only values both can hold are comparable
    long long x = w.t == H ? (w.u[0] > 0x7fffffffull ? -1 : (long long)w.u[0]) : w.i[0];
    if (x < 0) return ANY;
    if (t == B && x > 1) return ANY;
    return EXACT;
  }
  return REFUSE;
}
// the library converts only normal numbers exactly
static bool isspecial(f128 x) { double d = (double)x; f128 a = x < 0 ? -x : x; return d != d || std::isinf(d) || (a > 0 && a < (f128)std::numeric_limits<long double>::min()); }
static bool equal(const Val &got, const Val &w, Want k, std::string &why) {
  auto no = [&](const std::string &s) { why = s + ": stored " + show(w) + ", read " + show(got); return false; };
  if (cls(w.t) == 2) return got.s == w.s ? true : no("text differs");
  if (got.r != w.r || got.c != w.c) return no("shape differs");
  if (cls(w.t) == 0) {
    auto at = [](const Val &v, size_t n) { return v.t == H || v.t == VH ? (__int128)v.u[n] : (__int128)v.i[n]; };
    size_t n = w.t == H || w.t == VH ? w.u.size() : w.i.size(), m = got.t == H || got.t == VH ? got.u.size() : got.i.size();
    if (n != m) return no("size differs");
    for (size_t j = 0; j < n; j++) if (at(got, j) != at(w, j)) return no("entry " + std::to_string(j) + " differs");
    return true;
  }
  if (got.q.size() != w.q.size()) return no("size differs");
  for (size_t j = 0; j < w.q.size(); j++) {
    if (k == EXACT) { if (got.raw[j] != w.raw[j]) return no("entry " + std::to_string(j) + " differs"); }
    else if (!isspecial(w.q[j]) && got.q[j] != w.q[j]) return no("entry " + std::to_string(j) + " differs after widening");
  }
  return true;
}
static void mixv(const Val &v) { for (auto &x : v.raw) mix(x.data(), x.size()); if (!v.i.empty()) mix(v.i.data(), 8 * v.i.size()); if (!v.u.empty()) mix(v.u.data(), 8 * v.u.size()); mix(v.s.data(), v.s.size()); mix(&v.r, sizeof v.r); }

// ------------------------------------------------------------ raw files
static std::string slurp(const std::string &p) {
  std::string s; int fd = (int)open((p).c_str(), O_RDONLY); if (fd < 0) return s;
  char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); close(fd); return s;
}
static void spew(const std::string &p, const std::string &s) {
  int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); size_t o = 0;
  while (o < s.size()) { ssize_t n = write(fd, s.data() + o, s.size() - o); if (n <= 0) violation(HARNESS, "spew", "cannot write scratch file"); o += n; }
  close(fd);
}
static bool there(const std::string &p) { struct stat st; return !stat(p.c_str(), &st); }

// runs f as operation `op`; true if it returned, false if it threw
struct Out { bool ok = true; std::string err; uint64_t hard = 0, soft = 0; };
template <typename F> static Out run(uint32_t op, bool faults, F f) {
  Out o;
  io_enter(op, faults);
  try { f(); }
  catch (const std::exception &e) { o.ok = false; { IoPause p; o.err = e.what(); } }
  catch (...) { io_leave(); bad("foreign exception", "an access threw something that is not a std::exception"); }
  o.hard = io_hard(); o.soft = io_soft();
  io_leave();
  int x = o.ok; mix(&x, sizeof x);
  return o;
}

// ------------------------------------------------------------ checkpoint histories
struct Hist {
  Ctx &c; std::string label, file = "t.chk";
  std::map<std::string, Val> ref;
  std::unique_ptr<Checkpoint> k; bool rw = true, open = false;
  bool threw = false;      // some call of this session failed
  bool dirty = false;      // modified since the last acknowledged flush/close
  bool big;
  uint32_t op = 0; int fd0 = 0; bool broken = false; // descriptors the library kept of files on a broken disk
  std::vector<std::string> names;
  Hist(Ctx &c_, const std::string &l) : c(c_), label(l) {
    big = c.flag("big", 15);
    int n = (int)c.knob("names", 1, 6);
    static const char *pool[] = {"Ca", "Fock matrix", "E", "\xc3\xa9nergie", "x.y-z_0", "sadatom_Pal_0"};
    for (int i = 0; i < n; i++) names.push_back(pool[i]);
    if (c.flag("longname", 10)) names.push_back(std::string(300, 'n'));
    if (c.flag("manynames", 8)) for (int i = 0; i < 40; i++) names.push_back("entry" + std::to_string(i));
  }
  std::string nm(Rng &r) { return names[r.below(names.size())]; }
  std::string at() const { return "operation " + std::to_string(op); }
  // open/closed state as seen by the caller and by the operating system
  void state(const char *what, bool ok) {
    if (!k) return;
    if (k->is_open() != open)
      bad(std::string("open state changed by ") + what, label + " " + at() + ": " + what + (ok ? " succeeded" : " failed") + " and left the file " + (k->is_open() ? "open" : "closed") + " although it was " + (open ? "open" : "closed"));
    int n = io_open_fds();
    if (!open && n > fd0 && !broken) bad(std::string("descriptor leak by ") + what, label + " " + at() + ": after " + what + " the checkpoint is closed but " + std::to_string(n - fd0) + " file descriptor(s) stay open");
  }
  void check_read(const Val &w, Ty t, const std::string &n, const Val &got) {
    Want e = want(w, t); std::string why;
    if (e == REFUSE) bad(std::string("wrong type answered: ") + tyname[t] + " from " + tyname[w.t], label + " " + at() + ": \"" + n + "\" holds " + show(w) + " but was read as " + show(got));
    if (e == ANY) return;
    if (!equal(got, w, e, why)) bad(std::string("read back ") + tyname[w.t] + " as " + tyname[t], label + " " + at() + ": \"" + n + "\" " + why);
  }
  // every value of the reference, read by a fresh session from `path`
  void verify(const std::string &path, const std::string &when) {
    IoPause p;
    try {
      Checkpoint v(path, false);
      for (auto &x : ref) {
        Val g;
        try { g = get(v, x.first, x.second.t); }
        catch (const std::exception &e) { bad("value lost", label + " " + at() + " " + when + ": \"" + x.first + "\" " + show(x.second) + " cannot be read: " + e.what()); }
        std::string why;
        if (!equal(g, x.second, EXACT, why)) bad("value altered", label + " " + at() + " " + when + ": \"" + x.first + "\" " + why);
      }
      for (auto &n : names) if (!ref.count(n) && v.exist(n)) bad("removed entry present", label + " " + at() + " " + when + ": \"" + n + "\" exists but was removed or never written");
    } catch (const std::exception &e) { bad("file unreadable", label + " " + at() + " " + when + ": " + e.what()); }
  }
  void snapshot(const std::string &when) { IoPause p; spew("snap.chk", slurp(file)); verify("snap.chk", when); }
  void drop() { if (k) { run(op, false, [&] { k.reset(); }); } open = false; }
};

// P10: a typed map, on a healthy disk
static void s_typed(Ctx &c) {
  Hist h(c, "typed store");
  io_start(c, IoPlan());
  int nops = (int)c.knob("nops", 4, c.thorough ? 90 : 45);
  for (int i = 0; i < nops; i++) {
    h.op = i + 1; Rng r = c.rng("op" + std::to_string(i));
    if (!io_wants(h.op)) continue;
    int what = (int)r.below(100); if (!h.k) what = 0;
    if (what < 9 || !h.k) {
      // a new session
      int how = (int)r.below(10); bool ex = there(h.file);
      h.drop();
      if (how < 2) { // truncate
        Out o = run(h.op, false, [&] { h.k = std::make_unique<Checkpoint>(h.file, true); });
        if (!o.ok) bad("create failed", h.label + ": cannot create: " + o.err);
        h.ref.clear(); h.rw = true; h.open = h.k->is_open(); probe("session:truncate");
      } else if (how < 7) {
        Out o = run(h.op, false, [&] { h.k = std::make_unique<Checkpoint>(h.file, true, false); });
        if (!o.ok) bad("reopen failed", h.label + ": cannot reopen for writing: " + o.err);
        h.rw = true; h.open = h.k->is_open(); probe("session:append");
      } else {
        Out o = run(h.op, false, [&] { h.k = std::make_unique<Checkpoint>(h.file, false); });
        if (ex && !o.ok) bad("reopen failed", h.label + ": cannot reopen for reading: " + o.err);
        if (!ex && o.ok) bad("opened a missing file", h.label + ": a file that does not exist was opened for reading");
        if (!o.ok) { h.k.reset(); continue; }
        h.rw = false; h.open = h.k->is_open(); probe("session:read");
      }
      h.state("construction", true);
    } else if (what < 40) {
      std::string n = h.nm(r); Ty t = (Ty)r.below(NTY); Val v = gen(r, t, h.big);
      Out o = run(h.op, false, [&] { put(*h.k, n, v); });
      if (o.ok != h.rw) bad(h.rw ? "write refused" : "write to read-only file accepted", h.label + " " + h.at() + ": writing " + show(v) + ": " + o.err);
      if (o.ok) { probe(h.ref.count(n) ? "overwrite" : "write"); h.ref[n] = v; } else probe("write refused");
      h.state("write", o.ok);
    } else if (what < 62) {
      std::string n = h.nm(r); Ty t = (Ty)r.below(NTY);
      bool has = h.ref.count(n); if (has && r.below(3)) t = h.ref[n].t;
      Val g; Out o = run(h.op, false, [&] { g = get(*h.k, n, t); });
      if (o.ok) {
        if (!has) bad("missing entry answered", h.label + " " + h.at() + ": \"" + n + "\" was never written or was removed, but reading it gave " + show(g));
        h.check_read(h.ref[n], t, n, g); mixv(g); probe(g.t == h.ref[n].t ? "read" : "read converted");
      } else {
        if (has) { Want e = want(h.ref[n], t); if (e == EXACT || e == WIDEN) bad(std::string("stored value refused: ") + tyname[t] + " from " + tyname[h.ref[n].t], h.label + " " + h.at() + ": \"" + n + "\" " + show(h.ref[n]) + " as " + tyname[t] + ": " + o.err); }
        probe(has ? "wrong type refused" : "missing refused");
      }
      h.state("read", o.ok);
    } else if (what < 70) {
      std::string n = h.nm(r); bool e = false;
      Out o = run(h.op, false, [&] { e = h.k->exist(n); });
      if (!o.ok || e != (bool)h.ref.count(n)) bad("existence query wrong", h.label + " " + h.at() + ": exist(\"" + n + "\") gave " + (o.ok ? (e ? "true" : "false") : "an exception"));
      h.state("exist", o.ok);
    } else if (what < 78) {
      std::string n = h.nm(r);
      Out o = run(h.op, false, [&] { h.k->remove(n); });
      if (o.ok != h.rw) bad(h.rw ? "remove refused" : "remove from read-only file accepted", h.label + " " + h.at() + ": remove(\"" + n + "\") " + o.err);
      if (o.ok) { probe(h.ref.count(n) ? "removed" : "remove of missing"); h.ref.erase(n); }
      h.state("remove", o.ok);
    } else if (what < 82) {
      Out o = run(h.op, false, [&] { h.k->flush(); });
      if (!o.ok) bad("flush failed", h.label + " " + h.at() + ": " + o.err);
      h.state("flush", o.ok);
    } else if (what < 88) {
      Out o = run(h.op, false, [&] { h.k->open(); });
      if (o.ok == h.open) bad("open", h.label + " " + h.at() + ": open() on " + (h.open ? "an open" : "a closed") + " file " + (o.ok ? "succeeded" : "failed: " + o.err));
      h.open = true; h.state("open", o.ok);
    } else if (what < 94) {
      Out o = run(h.op, false, [&] { h.k->close(); });
      if (o.ok != h.open) bad("close", h.label + " " + h.at() + ": close() on " + (h.open ? "an open" : "a closed") + " file " + (o.ok ? "succeeded" : "failed: " + o.err));
      h.open = false; h.state("close", o.ok);
    } else {
      // a path below something that is not a group
      std::string n = h.nm(r) + "/" + h.nm(r); int d = (int)r.below(3);
      if (d == 0) {
        Val g; Ty t = (Ty)r.below(NTY); Out o = run(h.op, false, [&] { g = get(*h.k, n, t); });
        if (o.ok) bad("missing entry answered", h.label + " " + h.at() + ": \"" + n + "\" was read as " + show(g)); h.state("read", false);
      } else if (d == 1) {
        bool e = false; Out o = run(h.op, false, [&] { e = h.k->exist(n); });
        if (o.ok && e) bad("existence query wrong", h.label + " " + h.at() + ": exist(\"" + n + "\") is true"); h.state("exist", o.ok);
      } else {
        Val v = gen(r, (Ty)r.below(NTY), false); Out o = run(h.op, false, [&] { put(*h.k, n, v); });
        if (o.ok) bad("nested name accepted", h.label + " " + h.at() + ": writing \"" + n + "\" succeeded"); h.state("write", false);
      }
      probe("nested name");
    }
    // in the middle of a session, every value through the live handle
    if (h.k && r.below(12) == 0) for (auto &x : h.ref) {
      Val g; Out o = run(h.op, false, [&] { g = get(*h.k, x.first, x.second.t); });
      if (!o.ok) bad("value lost", h.label + " " + h.at() + ": \"" + x.first + "\" " + show(x.second) + ": " + o.err);
      h.check_read(x.second, x.second.t, x.first, g); h.state("read", true);
    }
  }
  h.drop();
  if (io_open_fds()) bad("descriptor leak at the end", h.label + ": " + std::to_string(io_open_fds()) + " descriptors open after the last session ended");
  if (there(h.file)) h.verify(h.file, "in a later session");
}

// P10: open state and foreign values on a failing disk
static void s_openstate(Ctx &c) {
  Hist h(c, "failing disk");
  IoPlan p; double q = (double[]){0.003, 0.01, 0.04}[c.knob("rate", 0, 2)]; if (c.flag("alloc", 12)) p.p_alloc = 0.15;
  for (int i = 0; i < SC_N; i++) p.p[i] = q; p.sticky = (int)c.knob("sticky", 0, 60); p.p_soft = q;
  io_start(c, p);
  h.op = 1; Out o0 = run(1, false, [&] { h.k = std::make_unique<Checkpoint>(h.file, true); });
  if (!o0.ok) bad("create failed", o0.err);
  h.open = h.k->is_open();
  int nops = (int)c.knob("nops", 3, c.thorough ? 60 : 30);
  for (int i = 0; i < nops; i++) {
    h.op = i + 2; Rng r = c.rng("op" + std::to_string(i));
    if (!io_wants(h.op)) continue;
    int what = (int)r.below(100); Out o; const char *nm = "";
    if (what < 35) { std::string n = h.nm(r); Val v = gen(r, (Ty)r.below(NTY), h.big); o = run(h.op, true, [&] { put(*h.k, n, v); }); nm = "write"; }
    else if (what < 65) { std::string n = h.nm(r); Ty t = (Ty)r.below(NTY); Val g; o = run(h.op, true, [&] { g = get(*h.k, n, t); }); nm = "read"; }
    else if (what < 73) { std::string n = h.nm(r); o = run(h.op, true, [&] { h.k->exist(n); }); nm = "exist"; }
    else if (what < 81) { std::string n = h.nm(r); o = run(h.op, true, [&] { h.k->remove(n); }); nm = "remove"; }
    else if (what < 85) { o = run(h.op, true, [&] { h.k->flush(); }); nm = "flush"; }
    else if (what < 93) { bool was = h.open; o = run(h.op, true, [&] { h.k->open(); }); if (o.ok && !was) h.open = true; nm = "open"; }
    else { o = run(h.op, true, [&] { h.k->close(); }); h.open = false; nm = "close"; }
    if (!o.ok) probe(o.hard ? "failed by fault" : "failed");
    // a library call that modifies the file and fails half way may keep objects, and with them the descriptor
    h.broken = io_damaged() || (o.hard && !o.ok && strcmp(nm, "read") && strcmp(nm, "exist"));
    h.state(nm, o.ok);
    if (h.broken) { // what the library makes of a half-written file is its own business: continue with a new one
      run(h.op, false, [&] { h.k.reset(); });
      { IoPause z; unlink(h.file.c_str()); h.file = "t" + std::to_string(i) + ".chk"; }
      io_fresh(); h.fd0 = io_open_fds(); h.broken = false;
      o = run(h.op, false, [&] { h.k = std::make_unique<Checkpoint>(h.file, true); });
      if (!o.ok) bad("create failed", o.err);
      h.open = h.k->is_open();
    }
  }
  Out o = run(h.op + 1, true, [&] { h.k.reset(); }); // the destructor must cope with a failing disk
  if (!o.ok) bad("destructor threw", o.err);
  if (io_open_fds() > h.fd0 && !io_damaged()) bad("descriptor leak at the end", h.label + ": " + std::to_string(io_open_fds() - h.fd0) + " descriptors open after the checkpoint was destroyed");
}

// P11: what was acknowledged is there
static void s_ack(Ctx &c) {
  Hist h(c, "write faults");
  IoPlan p; int mode = (int)c.knob("mode", 0, 3); if (c.flag("alloc", 12)) p.p_alloc = 0.15;
  double q = (double[]){0.002, 0.008, 0.03}[c.knob("rate", 0, 2)];
  if (mode == 0) { p.p[SC_WRITE] = q; p.p[SC_TRUNC] = p.p[SC_NAME] = q * 3; }
  if (mode == 1) { p.p_soft = 0.2; }
  if (mode == 2) { for (int i = 0; i < SC_N; i++) p.p[i] = q; p.p_soft = 0.05; }
  if (mode == 3) p.capacity = 600 + 200 * c.knob("capacity", 0, 150);
  p.sticky = (int)c.knob("sticky", 0, 70);
  io_start(c, p);
  int nops = (int)c.knob("nops", 3, c.thorough ? 70 : 35);
  auto acked = [&](const char *what) { if (!h.threw && there(h.file)) { h.snapshot(std::string("after an acknowledged ") + what); probe("acknowledged state verified"); } };
  for (int i = 0; i < nops; i++) {
    h.op = i + 1; Rng r = c.rng("op" + std::to_string(i));
    if (!io_wants(h.op)) continue;
    int what = (int)r.below(100);
    if (!h.k || what < 8 || h.threw) {
      bool keep = h.k && !h.threw && !h.open && r.below(2);
      // leave the old session through an explicit close, then start afresh
      if (h.k && h.open) { Out o = run(h.op, true, [&] { h.k->close(); }); if (!o.ok) h.threw = true; h.open = false; if (o.ok) acked("close"); else keep = false; }
      if (h.threw) keep = false;
      run(h.op, false, [&] { h.k.reset(); });
      { IoPause p; if (!keep) { unlink(h.file.c_str()); h.ref.clear(); if (io_damaged()) { h.file = "t" + std::to_string(i) + ".chk"; io_fresh(); } } }
      h.threw = false;
      Out o = run(h.op, true, [&] { h.k = std::make_unique<Checkpoint>(h.file, true, !keep); });
      if (!o.ok) {
        if (!o.hard) bad("create failed without a fault", h.label + " " + h.at() + ": " + o.err);
        h.k.reset(); h.open = false;
        if (keep) { h.snapshot("after a failed reopen"); } // refusing to open must not destroy
        { IoPause p; unlink(h.file.c_str()); h.ref.clear(); if (io_damaged()) { h.file = "u" + std::to_string(i) + ".chk"; io_fresh(); } }
        continue;
      }
      h.open = h.k->is_open();
      acked("session start");
      continue;
    }
    if (what < 55) {
      std::string n = h.nm(r); Val v = gen(r, (Ty)r.below(NTY), h.big);
      Out o = run(h.op, true, [&] { put(*h.k, n, v); });
      if (!o.ok && !o.hard && !h.threw) bad("write failed without a fault", h.label + " " + h.at() + ": " + o.err);
      if (o.ok) h.ref[n] = v; else h.threw = true;
      if (o.ok && o.hard) probe("fault absorbed by write");
      if (!o.ok) probe("write reported a fault");
      if (o.ok && !h.open) acked("write to a closed file");
    } else if (what < 65) {
      std::string n = h.nm(r); Out o = run(h.op, true, [&] { h.k->remove(n); });
      if (!o.ok && !o.hard && !h.threw) bad("remove failed without a fault", h.label + " " + h.at() + ": " + o.err);
      if (o.ok) h.ref.erase(n); else h.threw = true;
      if (o.ok && !h.open) acked("remove in a closed file");
    } else if (what < 77) {
      Out o = run(h.op, true, [&] { h.k->flush(); });
      if (!o.ok && !o.hard && !h.threw) bad("flush failed without a fault", h.label + " " + h.at() + ": " + o.err);
      if (!o.ok) { h.threw = true; probe("flush reported a fault"); } else if (h.open) acked("flush");
    } else if (what < 88) {
      if (h.open) {
        Out o = run(h.op, true, [&] { h.k->close(); });
        if (!o.ok && !o.hard && !h.threw) bad("close failed without a fault", h.label + " " + h.at() + ": " + o.err);
        h.open = false;
        if (!o.ok) { h.threw = true; probe("close reported a fault"); } else acked("close");
      } else {
        Out o = run(h.op, true, [&] { h.k->open(); });
        if (!o.ok && !o.hard && !h.threw) bad("open failed without a fault", h.label + " " + h.at() + ": " + o.err);
        if (!o.ok) h.threw = true; else h.open = true;
      }
    } else if (!h.ref.empty() && !h.threw) {
      auto it = h.ref.begin(); std::advance(it, r.below(h.ref.size())); Val g;
      Out o = run(h.op, true, [&] { g = get(*h.k, it->first, it->second.t); });
      if (!o.ok && !o.hard) bad("read failed without a fault", h.label + " " + h.at() + ": " + o.err);
      if (o.ok) h.check_read(it->second, it->second.t, it->first, g);
      // a failed read acknowledges nothing and loses nothing
      if (!o.ok) h.threw = true;
    }
    h.open = h.k->is_open();
  }
  if (h.k && h.open) { Out o = run(h.op + 1, true, [&] { h.k->close(); }); if (!o.ok) h.threw = true; else acked("close"); }
  run(h.op + 2, false, [&] { h.k.reset(); });
}

// P12: reads on a failing disk and truncated files
static void fill(Hist &h, int n) {
  Rng r = h.c.rng("fill");
  Out o = run(1, false, [&] { h.k = std::make_unique<Checkpoint>(h.file, true); h.k->open();
    for (int i = 0; i < n; i++) { std::string nm = h.nm(r); Val v = gen(r, (Ty)r.below(NTY), h.big); put(*h.k, nm, v); h.ref[nm] = v; }
    h.k->close(); h.k.reset(); });
  if (!o.ok) bad("create failed", h.label + ": " + o.err);
}
static void s_badread(Ctx &c) {
  Hist h(c, "read faults"); IoPlan p; double q = (double[]){0.01, 0.05, 0.2}[c.knob("rate", 0, 2)]; if (c.flag("alloc", 12)) p.p_alloc = 0.15;
  p.p[SC_READ] = q; p.p[SC_OPEN] = q / 3; p.p[SC_STAT] = q / 3; p.p[SC_CLOSE] = q / 6; p.p[SC_LOCK] = q / 6; p.p_soft = c.flag("soft", 50) ? 0.2 : 0; p.sticky = (int)c.knob("sticky", 0, 60);
  io_start(c, p);
  fill(h, (int)c.knob("fill", 1, 8));
  h.rw = c.flag("rw", 30); std::string before = slurp(h.file);
  int nops = (int)c.knob("nops", 2, 25);
  for (int i = 0; i < nops; i++) {
    h.op = i + 2; Rng r = c.rng("op" + std::to_string(i)); if (!io_wants(h.op)) continue;
    if (!h.k || r.below(8) == 0) {
      run(h.op, true, [&] { h.k.reset(); });
      Out o = run(h.op, true, [&] { h.k = std::make_unique<Checkpoint>(h.file, h.rw, false); });
      if (!o.ok && !o.hard) bad("open failed without a fault", h.label + " " + h.at() + ": " + o.err);
      if (!o.ok) { h.k.reset(); probe("open reported a fault"); continue; }
      h.open = h.k->is_open();
    }
    if (r.below(4) == 0) { Out o = run(h.op, true, [&] { if (h.open) h.k->close(); else h.k->open(); }); h.open = h.k->is_open(); }
    int w = (int)r.below(10); std::string n = h.nm(r);
    if (w < 7) {
      bool has = h.ref.count(n); Ty t = has && r.below(4) ? h.ref[n].t : (Ty)r.below(NTY); Val g;
      Out o = run(h.op, true, [&] { g = get(*h.k, n, t); });
      if (o.ok) { if (!has) bad("missing entry answered", h.label + " " + h.at() + ": \"" + n + "\" read as " + show(g)); h.check_read(h.ref[n], t, n, g); if (o.hard) probe("fault absorbed by read"); probe("read"); }
      else if (!o.hard && has && want(h.ref[n], t) != REFUSE && want(h.ref[n], t) != ANY) bad("read failed after the fault was gone", h.label + " " + h.at() + ": \"" + n + "\" " + show(h.ref[n]) + ": " + o.err);
      else if (o.hard) probe("read reported a fault");
    } else {
      bool e = false; Out o = run(h.op, true, [&] { e = h.k->exist(n); });
      if (o.ok && e != (bool)h.ref.count(n)) bad("existence query wrong", h.label + " " + h.at() + ": exist(\"" + n + "\") gave " + (e ? "true" : "false"));
      if (!o.ok && !o.hard) bad("existence query failed without a fault", h.label + " " + h.at() + ": " + o.err);
    }
  }
  // once the disk works again everything is readable, through the live handle and afresh
  io_heal();
  if (h.k) for (auto &x : h.ref) {
    Val g; Out o = run(h.op + 1, false, [&] { g = get(*h.k, x.first, x.second.t); });
    if (!o.ok) bad("read failed after the fault was gone", h.label + ": \"" + x.first + "\" " + show(x.second) + ": " + o.err);
    h.check_read(x.second, x.second.t, x.first, g);
  }
  h.op++; run(h.op + 1, false, [&] { h.k.reset(); });
  if (!h.rw && slurp(h.file) != before) bad("reading changed the file", h.label + ": the file differs after a read-only session");
  h.verify(h.file, "after the faults");
}
static void s_truncated(Ctx &c) {
  Hist h(c, "truncated file"); io_start(c, IoPlan());
  fill(h, (int)c.knob("fill", 1, 8));
  std::string all = slurp(h.file);
  int cuts = (int)c.knob("cuts", 1, 12);
  for (int i = 0; i < cuts; i++) {
    h.op = i + 2; Rng r = c.rng("cut" + std::to_string(i)); if (!io_wants(h.op)) continue;
    size_t n = r.below(5) == 0 ? (r.below(2) ? r.below(200) % all.size() : all.size() - 1 - r.below(std::min<size_t>(64, all.size() - 1))) : r.below(all.size());
    spew("cut.chk", all.substr(0, n));
    for (int rw = 0; rw < 2; rw++) {
      spew("cut.chk", all.substr(0, n));
      Out o = run(h.op, false, [&] { h.k = std::make_unique<Checkpoint>("cut.chk", rw != 0, false); });
      if (!o.ok) { probe("truncated file refused"); h.k.reset(); if (io_open_fds()) bad("descriptor leak by failed open", h.label); continue; }
      probe("truncated file opened");
      for (auto &nm : h.names) {
        bool has = h.ref.count(nm); Ty t = has ? h.ref[nm].t : (Ty)r.below(NTY); Val g;
        Out q = run(h.op, false, [&] { g = get(*h.k, nm, t); });
        if (q.ok) { if (!has) bad("missing entry answered", h.label + ": " + nm); h.check_read(h.ref[nm], t, nm, g); }
      }
      run(h.op, false, [&] { h.k.reset(); });
    }
  }
}

// P13: acknowledged data survives a crash
static void s_crash(Ctx &c) {
  Hist h(c, "crash"); IoPlan p; p.p_soft = c.flag("soft", 30) ? 0.15 : 0;
  io_start(c, p);
  int nops = (int)c.knob("nops", 4, c.thorough ? 60 : 30);
  bool acked = false;        // everything in ref has been acknowledged and not modified since
  int crashes = 0; bool armed = false;
  // a crash between or inside the system calls of an operation that modifies nothing
  io_observer = [&](int, const std::string &, int phase) {
    if (!armed || crashes > 40) return;
    crashes++; probe(phase ? "crash after a system call" : "crash before a system call"); h.snapshot("after a crash");
  };
  for (int i = 0; i < nops; i++) {
    h.op = i + 1; Rng r = c.rng("op" + std::to_string(i)); if (!io_wants(h.op)) continue;
    int what = (int)r.below(100);
    if (!h.k) {
      bool ex = there(h.file) && r.below(4); if (!ex) { h.ref.clear(); acked = false; }
      armed = ex && acked;
      Out o = run(h.op, true, [&] { h.k = std::make_unique<Checkpoint>(h.file, true, !ex); });
      armed = false;
      if (!o.ok) bad("open failed without a fault", h.label + " " + h.at() + ": " + o.err);
      h.open = h.k->is_open(); acked = true;
    } else if (what < 45) {
      std::string n = h.nm(r); Val v = gen(r, (Ty)r.below(NTY), h.big); acked = false;
      Out o = run(h.op, true, [&] { if (r.below(6) == 0) { h.k->remove(n); h.ref.erase(n); } else { put(*h.k, n, v); h.ref[n] = v; } });
      if (!o.ok) bad("write failed without a fault", h.label + " " + h.at() + ": " + o.err);
      if (!h.open) acked = true;
    } else if (what < 60) {
      Out o = run(h.op, true, [&] { h.k->flush(); }); if (!o.ok) bad("flush failed without a fault", o.err);
      acked = true; if (h.open) probe("flush acknowledged");
    } else if (what < 75) {
      std::string n = h.nm(r); Ty t = h.ref.count(n) && r.below(5) ? h.ref[n].t : (Ty)r.below(NTY); Val g;
      armed = acked; run(h.op, true, [&] { if (r.below(4) == 0) h.k->exist(n); else g = get(*h.k, n, t); }); armed = false;
    } else if (what < 90) {
      armed = acked && !h.open; // while it closes a file, the library trims it before it updates its header
      Out o = run(h.op, true, [&] { if (h.open) h.k->close(); else h.k->open(); });
      armed = false;
      if (!o.ok) bad("open or close failed without a fault", h.label + " " + h.at() + ": " + o.err);
      if (h.open) acked = true;
      h.open = !h.open;
    } else {
      armed = acked && !h.open; run(h.op, true, [&] { h.k.reset(); }); armed = false;
      if (h.open) acked = true; h.open = false;
    }
    if (h.k) h.open = h.k->is_open();
    if (acked && there(h.file) && r.below(2)) { probe("crash after an acknowledged operation"); h.snapshot("after a crash"); }
  }
  io_observer = nullptr;
}

#include "io_basis.inc"

namespace sim {
const std::vector<Scenario> &all_scenarios() {
  static const std::vector<Scenario> s = {
    {"P10", "typed", 3, s_typed}, {"P10", "openstate", 2, s_openstate},
    {"P11", "ack", 1, s_ack},
    {"P12", "badread", 2, s_badread}, {"P12", "truncated", 1, s_truncated},
    {"P13", "crash", 1, s_crash},
    {"P14", "atomic", 2, s_atomic_basis}, {"P14", "diatomic", 1, s_diatomic_basis},
    {"P15", "dump", 2, s_dump}, {"P15", "table", 2, s_table}, {"P15", "params", 1, s_params},
    {"P16", "timer", 1, s_timer},
    {"P17", "restart", 1, s_restart},
  };
  return s;
}
}
