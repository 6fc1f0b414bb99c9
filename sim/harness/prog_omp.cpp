// Whole programs under simulated schedules (property P18): HelFEM's own main
// functions run under the simulated OpenMP runtime; what they print and the
// files they write must be what one thread prints and writes.
#include "prog_common.h"
#include "h5cmp.h"
#include <helfem.h>
#include <dlfcn.h>
#include <sys/time.h>
#include <time.h>
using namespace hs;

namespace sim { void prepare_child(Ctx &) { helfem::set_verbosity(false); H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); } }

// programs print how long they took: time stands still while one runs
static bool g_frozen = false;
extern "C" int clock_gettime(clockid_t id, struct timespec *t) noexcept {
  static int (*real)(clockid_t, struct timespec *) = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
  if (g_frozen) { t->tv_sec = 1700000000; t->tv_nsec = 0; return 0; }
  return real(id, t);
}
extern "C" int gettimeofday(struct timeval *t, void *z) noexcept {
  static int (*real)(struct timeval *, void *) = (int (*)(struct timeval *, void *))dlsym(RTLD_NEXT, "gettimeofday");
  if (g_frozen) { t->tv_sec = 1700000000; t->tv_usec = 0; return 0; }
  return real(t, z);
}
extern "C" time_t time(time_t *t) noexcept {
  static time_t (*real)(time_t *) = (time_t (*)(time_t *))dlsym(RTLD_NEXT, "time");
  if (g_frozen) { if (t) *t = 1700000000; return 1700000000; }
  return real(t);
}

// text equal, numbers equal up to rounding; empty: the same
static bool number_at(const std::string &s, size_t i, size_t &e, double &v) {
  size_t k = i; if (k < s.size() && (s[k] == '-' || s[k] == '+')) k++;
  if (k < s.size() && s[k] == '.') k++;
  if (k >= s.size() || !isdigit((unsigned char)s[k])) {
    if (s.compare(k, 3, "nan") == 0 || s.compare(k, 3, "inf") == 0) {} else return false;
  }
  char *q; v = strtod(s.c_str() + i, &q); e = q - s.c_str(); return e > i;
}
static std::string text_diff(const std::string &a, const std::string &b, double tol) {
  size_t i = 0, j = 0; bool ws = true; int line = 1;
  for (;;) {
    bool sa = false; while (i < a.size() && isspace((unsigned char)a[i])) { if (a[i] == '\n') line++; i++; sa = true; }
    bool sb = false; while (j < b.size() && isspace((unsigned char)b[j])) { j++; sb = true; }
    if (sa || sb) ws = true;
    if (i >= a.size() || j >= b.size()) {
      if (i >= a.size() && j >= b.size()) return "";
      return "one text is longer, after line " + std::to_string(line) + ": '" + (i < a.size() ? a.substr(i, 60) : b.substr(j, 60)) + "'";
    }
    size_t e, f; double u, v; bool word = i > 0 && (isalnum((unsigned char)a[i - 1]) || a[i - 1] == '_') && !ws;
    if (!word && number_at(a, i, e, u) && number_at(b, j, f, v)) {
      if (!(std::abs(u - v) <= tol * std::max(1.0, std::abs(u))) && !(std::isnan(u) && std::isnan(v)) && !(u == v))
        return "line " + std::to_string(line) + ": " + b.substr(j, f - j) + " instead of " + a.substr(i, e - i) + " in '" + a.substr(i > 60 ? i - 60 : 0, 100) + "'";
      i = e; j = f; ws = false; continue;
    }
    if (a[i] != b[j]) return "line " + std::to_string(line) + ": '" + b.substr(j, 40) + "' instead of '" + a.substr(i, 40) + "'";
    i++; j++; ws = false;
  }
}
// eigenvectors are free in sign and among equal eigenvalues
static H5 fixed_entries(H5 h) {
  for (auto i = h.begin(); i != h.end();) { const std::string &n = i->first; if (n[0] == 'C' || n.rfind("sadatom_C", 0) == 0 || n.rfind("orb", 0) == 0) i = h.erase(i); else ++i; }
  return h;
}
static std::string drop_warnings(const std::string &t) { std::istringstream is(t); std::string o, l; while (std::getline(is, l)) if (l.rfind("Warning:", 0) != 0) o += l + "\n"; return o; }

static void p18(Ctx &c, Chain k, bool tiny_team = true) {
  if (!find_prog(k.job.prog)) return;
  std::string S = c.scratch + "/s", A = c.scratch + "/a", B = c.scratch + "/b";
  for (auto &d : {S, A, B}) mkdir(d.c_str(), 0700);
  auto inputs = [&](const std::string &d, const Job &j) { for (auto &x : j.inputs) { std::string p = d + "/" + x.first; struct stat st; if (stat(p.c_str(), &st)) spit_file(p, x.second); } };
  g_frozen = true;
  auto ref_run = [&](const std::string &d, const Job &j, const std::string &log) {
    inputs(d, j);
    return in_child(d, log, [&]() { int rc = call_main(j, nullptr); fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush(); _exit(rc); return rc; });
  };
  for (auto &j : k.pre) { Outcome o = ref_run(S, j, c.scratch + "/pre.log"); if (!o.ok) { sim::probe("input rejected"); return; } }
  copy_dir(S, A); copy_dir(S, B);
  Outcome ref = ref_run(A, k.job, c.scratch + "/ref.log");
  if (ref.status >= 128) mismatch(k.job.cmd(), "one thread: " + ref.why);
  inputs(B, k.job);
  if (chdir(B.c_str())) sim::violation(sim::HARNESS, "chdir", "chdir failed");
  sim::Options o = options(c); if (tiny_team) o.nthreads = std::min(o.nthreads, 4);
  fflush(stdout); std::cout.flush(); c.truncate_output();
  int rc = 0;
  sim::simulate(o, [&]() { rc = call_main(k.job, nullptr); });
  fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush();
  g_frozen = false;
  std::string log = c.output();
  if (rc != ref.status) mismatch("exit status of " + k.job.prog, k.job.cmd() + ": " + std::to_string(rc) + " under the schedule, " + std::to_string(ref.status) + " with one thread");
  if (rc != 0) { sim::probe("input rejected"); return; }
  sim::probe(("ran:" + k.job.prog).c_str());
  std::string d = text_diff(drop_warnings(ref.log), drop_warnings(log), 1e-6);
  if (!d.empty()) mismatch("printout of " + k.job.prog, k.job.cmd() + ": " + d);
  auto a = list_dir(A), b = list_dir(B);
  if (a != b) mismatch("files of " + k.job.prog, k.job.cmd() + ": different files are written");
  for (auto &n : a) {
    std::string x = slurp_file(A + "/" + n), y = slurp_file(B + "/" + n);
    if (x == y) continue;
    std::string e = is_h5(x) ? h5_diff(fixed_entries(h5_read(A + "/" + n)), fixed_entries(h5_read(B + "/" + n)), 1e-6) : text_diff(x, y, 1e-6);
    if (!e.empty()) mismatch("file of " + k.job.prog, k.job.cmd() + ": " + n + ": " + e);
  }
  mix(log.data(), log.size());
}
static Chain only(const Job &j) { Chain k; k.job = j; return k; }
static void with_save(Ctx &c, Job &j) { if (c.flag("save", 50)) j.args.push_back(opt("save", std::string("a.chk"))); }
static void s_atomic(Ctx &c) { Job j = job_atomic(c, true, 7); with_save(c, j); p18(c, only(j)); }
static void s_diatomic(Ctx &c) { Job j = job_diatomic(c, true, 5); with_save(c, j); p18(c, only(j)); }
static void s_gensap(Ctx &c) { Job j = job_gensap(c, true, 5); j.cold = c.flag("cold start", 40); with_save(c, j); p18(c, only(j)); }
static void s_1e_atom(Ctx &c) { p18(c, only(job_1e_atom(c, true))); }
static void s_aij(Ctx &c) { Job j = job_aij(c, true); j.cold = c.flag("cold start", 40); if (c.flag("savefock", 40)) j.args.push_back(opt("savefock", std::string("f.dat"))); p18(c, only(j)); }
static void s_diatomic_1e(Ctx &c) { p18(c, only(job_diatomic_1e(c, true))); }
static void s_density_line(Ctx &c) { p18(c, chain_density_line(c, true)); }
static void s_density_grid(Ctx &c) { p18(c, chain_density_grid(c, true)); }
static void s_completeness(Ctx &c) { p18(c, chain_completeness(c, true, 12)); }
static void s_corebasis(Ctx &c) { p18(c, only(job_corebasis(c))); }
static void s_harmonic(Ctx &c) { p18(c, only(job_harmonic(c))); }
static void s_morse(Ctx &c) { p18(c, only(job_morse(c))); }
static void s_softcoulomb(Ctx &c) { p18(c, only(job_softcoulomb(c))); }
// every entry of the database is printed whatever the schedule
static void s_atomdb_dump(Ctx &c) {
  if (!prog_general_atomdb_dump) return;
  std::string D = c.scratch + "/d", E = c.scratch + "/e"; mkdir(D.c_str(), 0700); mkdir(E.c_str(), 0700);
  g_frozen = true;
  Outcome ref = in_child(D, c.scratch + "/ref.log", [&]() { int rc = prog_general_atomdb_dump(); fflush(stdout); std::cout.flush(); _exit(rc); return rc; });
  if (chdir(E.c_str())) return;
  fflush(stdout); std::cout.flush(); c.truncate_output();
  int rc = 0;
  sim::simulate(options(c), [&]() { rc = prog_general_atomdb_dump(); });
  fflush(stdout); std::cout.flush(); g_frozen = false;
  std::string log = c.output();
  if (rc != ref.status) mismatch("exit status of atomdb_dump", std::to_string(rc));
  std::string d = text_diff(ref.log, log, 1e-8);
  if (!d.empty()) mismatch("printout of atomdb_dump", d);
  auto a = list_dir(D), b = list_dir(E); if (a != b) mismatch("files of atomdb_dump", "different files are written");
  for (auto &n : a) { d = text_diff(slurp_file(D + "/" + n), slurp_file(E + "/" + n), 1e-8); if (!d.empty()) mismatch("file of atomdb_dump", n + ": " + d); }
  sim::probe("ran:atomdb_dump");
}
namespace sim {
const std::vector<Scenario> &all_scenarios() {
  static const std::vector<Scenario> s = {
    {"P18", "atomic", 4, s_atomic}, {"P18", "diatomic", 4, s_diatomic}, {"P18", "gensap", 3, s_gensap}, {"P18", "1e_atom", 2, s_1e_atom}, {"P18", "aij", 2, s_aij},
    {"P18", "diatomic_1e", 2, s_diatomic_1e}, {"P18", "density_line", 1, s_density_line}, {"P18", "density_grid", 1, s_density_grid}, {"P18", "completeness", 3, s_completeness},
    {"P18", "corebasis", 1, s_corebasis}, {"P18", "harmonic", 1, s_harmonic}, {"P18", "morse", 1, s_morse}, {"P18", "softcoulomb", 1, s_softcoulomb}, {"P18", "atomdb_dump", 1, s_atomdb_dump}};
  return s;
}
}
