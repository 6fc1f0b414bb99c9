// Running HelFEM's own programs (their real main functions) inside a
// simulated history: every execution is a forked child with fresh static
// state, its own working directory and a captured log.
#pragma once
#include "common.h"
#include <checkpoint.h>
#include <openorbitaloptimizer/scfsolver.hpp>
#include <algorithm>
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

// absent programs (removed or renamed in the tree) are skipped
#define PROG(n) int n(int, char **) __attribute__((weak));
PROG(prog_atomic_main) PROG(prog_diatomic_main) PROG(prog_sadatom_main) PROG(prog_sadatom_1e) PROG(prog_sadatom_aij) PROG(prog_diatomic_1e)
PROG(prog_diatomic_density_line) PROG(prog_diatomic_density_grid) PROG(prog_diatomic_completeness) PROG(prog_diatomic_corebasis)
PROG(prog_harmonic_main) PROG(prog_harmonic_morse) PROG(prog_harmonic_softcoulomb)
#undef PROG
int prog_general_atomdb_dump(void) __attribute__((weak));

namespace hs {
typedef int (*MainFn)(int, char **);
struct ProgDef { const char *name; MainFn fn; };
inline const std::vector<ProgDef> &programs() {
  static const std::vector<ProgDef> p = {
    {"atomic", prog_atomic_main}, {"diatomic", prog_diatomic_main}, {"gensap", prog_sadatom_main}, {"1e_atom", prog_sadatom_1e}, {"aij", prog_sadatom_aij},
    {"diatomic_1e", prog_diatomic_1e}, {"density_line", prog_diatomic_density_line}, {"density_grid", prog_diatomic_density_grid}, {"completeness", prog_diatomic_completeness},
    {"corebasis", prog_diatomic_corebasis}, {"harmonic", prog_harmonic_main}, {"morse", prog_harmonic_morse}, {"softcoulomb", prog_harmonic_softcoulomb},
    {"atomdb_dump", prog_general_atomdb_dump ? +[](int, char **) { return prog_general_atomdb_dump(); } : nullptr}};
  return p;
}
inline MainFn find_prog(const std::string &n) { for (auto &p : programs()) if (n == p.name) return p.fn; return nullptr; }

struct Job {
  std::string prog;
  std::vector<std::string> args;
  std::map<std::string, std::string> inputs; // text files made before the run
  int steps = 1, batch = 1; bool cold = false; // of the stand-in SCF solver
  std::string cmd() const { std::string s = prog; for (auto &a : args) s += " " + a; return s; }
};

inline std::string slurp_file(const std::string &p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
inline void spit_file(const std::string &p, const std::string &t) { std::ofstream f(p, std::ios::binary); f << t; }
inline std::vector<std::string> list_dir(const std::string &d) {
  std::vector<std::string> v; DIR *dp = opendir(d.c_str()); if (!dp) return v;
  while (struct dirent *e = readdir(dp)) { std::string n = e->d_name; if (n != "." && n != "..") v.push_back(n); }
  closedir(dp); std::sort(v.begin(), v.end()); return v;
}
inline void copy_dir(const std::string &a, const std::string &b) { for (auto &n : list_dir(a)) if (n[0] != '.') spit_file(b + "/" + n, slurp_file(a + "/" + n)); }

// what the execution came to
struct Outcome {
  bool ok = false;          // exit status 0
  bool stuck = false;       // ended by the harness: no claim
  bool crashed = false;     // ended by a simulated process crash
  int status = 0;
  std::string log, why;
};
enum { X_THREW = 77, X_STUCK = 78, X_CRASH = 79, X_VIOLATION = 90 };

// the call of main itself, in the child
// called right before and after the program's main function
inline std::function<void(bool)> &main_hook() { static std::function<void(bool)> h; return h; }
inline int call_main(const Job &j, std::string *why) {
  MainFn f = find_prog(j.prog);
  std::vector<std::string> a; a.push_back(j.prog); a.insert(a.end(), j.args.begin(), j.args.end());
  std::vector<char *> v; for (auto &s : a) v.push_back(&s[0]);
  v.push_back(nullptr);
  OpenOrbitalOptimizer::steps() = j.steps; OpenOrbitalOptimizer::batch() = j.batch; OpenOrbitalOptimizer::cold() = j.cold;
  std::function<void(bool)> hook = main_hook();
  try { if (hook) hook(true); int rc = f((int)a.size(), v.data()); if (hook) hook(false); return rc; }
  catch (const std::exception &e) { if (hook) hook(false); if (why) *why = e.what(); else fprintf(stderr, "terminate: %s\n", e.what()); return X_THREW; }
  catch (...) { if (hook) hook(false); return X_THREW; }
}

// fork, chdir, run, wait. `body` runs in the child after the log is in place.
inline Outcome in_child(const std::string &dir, const std::string &log, const std::function<int()> &body) {
  Outcome o;
  fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush();
  pid_t me = getpid(), pid = fork();
  if (pid < 0) sim::violation(sim::HARNESS, "fork failed", "fork failed");
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != me) _exit(1);
    int fd = open(log.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
    if (fd < 0 || chdir(dir.c_str())) _exit(92);
    dup2(fd, 1); dup2(fd, 2); if (fd > 2) close(fd);
    int rc = body();
    exit(rc);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) sim::violation(sim::HARNESS, "waitpid", "waitpid failed");
  if (sim::g_sh && sim::g_sh->kind != sim::OK) { printf("%s\n", slurp_file(log).c_str()); fflush(stdout); _exit(X_VIOLATION); } // the child found a violation or crashed
  { // warned about at most once per process
    std::istringstream is(slurp_file(log)); std::string l; while (std::getline(is, l)) if (l.rfind("Warning: diatomic radial_integral", 0) != 0) o.log += l + "\n";
  }
  if (WIFSIGNALED(st)) {
    int s = WTERMSIG(st);
    if (s == SIGXCPU || s == SIGKILL) sim::violation(sim::TIMEOUT, "program hangs", "the program did not finish");
    o.status = 128 + s; o.why = "signal " + std::to_string(s); return o;
  }
  o.status = WEXITSTATUS(st);
  if (o.status == 92) sim::violation(sim::HARNESS, "child set-up", "cannot set up the child");
  o.ok = o.status == 0; o.stuck = o.status == X_STUCK; o.crashed = o.status == X_CRASH;
  return o;
}

// ---------------------------------------------------------------- arguments
inline std::string opt(const std::string &k, const std::string &v) { return "--" + k + "=" + v; }
inline std::string opt(const std::string &k, int64_t v) { return "--" + k + "=" + std::to_string(v); }
inline std::string optd(const std::string &k, double v) { char b[60]; snprintf(b, sizeof b, "--%s=%.6g", k.c_str(), v); return b; }
inline void radial(Ctx &c, Job &j, int maxel, const std::string &p = "") {
  int fam = family(c);
  int nn = (int)c.knob(p + "nnodes", 3, fam == 5 ? 3 : 5);
  j.args.push_back(opt("nelem", c.knob(p + "nelem", 1, maxel)));
  j.args.push_back(opt("nnodes", nn)); j.args.push_back(opt("primbas", fam));
  j.args.push_back(opt("grid", c.knob(p + "grid", 1, 4)));
  j.args.push_back(optd("Rmax", 8.0 + 2 * c.knob(p + "rmax", 0, 10)));
}
static const char *const METHODS[] = {"HF", "lda_x", "lda_x-lda_c_vwn", "gga_x_pbe-gga_c_pbe", "hyb_gga_xc_b3lyp", "mgga_x_tpss-mgga_c_tpss", "none", "hyb_gga_xc_hse06"};
static const char *const MIXED[] = {"lda_x-gga_c_pbe", "gga_x_pbe-lda_c_vwn", "lda_x-mgga_c_tpss", "mgga_x_tpss-lda_c_vwn", "gga_x_pbe-mgga_c_tpss"};
inline std::string method(Ctx &c, int n) {
  std::string m = METHODS[c.knob("method", 0, n)];
  if (n >= 3 && c.flag("mixed", 12)) m = MIXED[c.knob("mixture", 0, n >= 5 ? 4 : 1)]; // exchange and correlation of different kinds
  return m;
}
}
namespace hs {
struct Chain { std::vector<Job> pre; Job job; };

// ---- the SCF programs. tiny: sizes for instrumented runs
inline void xpars(Ctx &c, Job &j, const std::string &m) {
  if (m != "gga_x_pbe-gga_c_pbe" || !c.flag("xpars", 40)) return;
  j.inputs["xp.dat"] = c.flag("xplines", 50) ? "0.804\n0.21951\n" : " 0.7 0.25 "; j.args.push_back(opt("x_pars", std::string("xp.dat")));
}
inline Job job_atomic(Ctx &c, bool tiny, int nmethod) {
  static const char *el[] = {"H", "He", "Li", "Be"};
  Job j; j.prog = "atomic";
  int lmax = (int)c.knob("lmax", 0, tiny ? 1 : 2), mmax = (int)c.knob("mmax", 0, lmax);
  int Z = (int)c.knob("Z", 1, 4), ne = (int)c.knob("electrons", 1, lmax == 0 ? std::min(Z, 3) : 2); ne = std::min(ne, Z);
  j.args = {opt("Z", c.flag("Znum", 30) ? std::to_string(Z) : std::string(el[Z - 1])), opt("lmax", lmax), opt("mmax", mmax), opt("Q", Z - ne)};
  radial(c, j, tiny ? 3 : 4);
  int M = ne % 2 ? 2 : (lmax == 0 && c.flag("triplet", 30) ? 3 : 1); bool avg = c.flag("M0", 15);
  j.args.push_back(opt("M", avg ? 0 : M));
  if (!avg && c.flag("restrictedset", 30)) j.args.push_back(opt("restricted", M == 1 ? c.knob("restricted", 0, 1) : 0));
  int sym = (int)c.knob("symmetry", 0, 2); j.args.push_back(opt("symmetry", sym));
  std::string m = method(c, nmethod); j.args.push_back(opt("method", m)); xpars(c, j, m);
  if (c.flag("iguess", 60)) j.args.push_back(opt("iguess", c.knob("guess", 0, 4)));
  if (c.flag("field", 20)) { if (lmax) j.args.push_back(optd("Ez", 0.01)); else j.args.push_back(optd("Bz", 0.05)); }
  if (c.flag("confinement", 15)) { j.args.push_back(opt("iconf", 1)); j.args.push_back(opt("conf_N", 2)); j.args.push_back(optd("conf_R", 5)); }
  if (c.flag("finitenuc", 15)) { j.args.push_back(opt("finitenuc", c.knob("nucmodel", 1, 3))); j.args.push_back(optd("Rrms", 0.01)); }
  if (c.flag("zeroder", 15)) j.args.push_back(opt("zeroder", 1));
  if (c.flag("grid small", 60)) { j.args.push_back(opt("ldft", 6)); j.args.push_back(opt("mdft", 5)); }
  bool field = false; for (auto &a : j.args) field |= a.rfind("--Ez", 0) == 0 || a.rfind("--Bz", 0) == 0;
  int sym_eff = sym == 2 && field ? 1 : sym;
  if (sym_eff && !avg && c.flag("readocc", 35)) {
    int na = M == 3 ? 2 : (ne + 1) / 2, nb = ne - na; bool r = M == 1;
    (void)r; j.inputs["occs.dat"] = std::to_string(na) + " " + std::to_string(nb) + (sym_eff == 2 ? " 0 0\n" : " 0\n"); j.args.push_back(opt("readocc", 1));
  }
  if (c.flag("verbosity", 30)) j.args.push_back(opt("verbosity", c.knob("verb", 0, 1) ? 1 : 5));
  j.steps = (int)c.knob("steps", 0, 2);
  return j;
}
// orders for which the refinement of the radial quadrature ends early
inline void early_quadrature(Ctx &c, Job &j) { if (c.flag("earlyquad", 85)) j.args.push_back(opt("nquad", 16 * c.knob("nquad", 1, 2) + c.knob("xquad", 0, 1))); }
inline Job job_diatomic(Ctx &c, bool tiny, int nmethod) {
  static const char *el[] = {"", "H", "He", "Li"};
  Job j; j.prog = "diatomic";
  int Z1 = (int)c.knob("Z1", 1, 2), Z2 = (int)c.knob("Z2", 0, 2), ne = std::min((int)c.knob("electrons", 1, 2), Z1 + Z2);
  int mmax = (int)c.knob("mmax", 0, 1);
  j.args = {opt("Z1", std::string(el[Z1])), opt("Z2", Z2 ? std::string(el[Z2]) : std::string("0")), optd("Rbond", 1.0 + 0.1 * c.knob("R", 0, 20)), opt("Q", Z1 + Z2 - ne)};
  if (c.flag("lmlist", 50)) j.args.push_back(opt("lmax", mmax ? std::string(tiny ? "1,1" : "2,1") : std::string(tiny ? "1" : "2")));
  else { j.args.push_back(opt("lmax", c.knob("lmax", 1, tiny ? 1 : 2))); j.args.push_back(opt("mmax", mmax)); }
  radial(c, j, tiny ? 2 : 3); early_quadrature(c, j);
  bool avg = c.flag("M0", 15); j.args.push_back(opt("M", avg ? 0 : (ne % 2 ? 2 : 1)));
  int sym = (int)c.knob("symmetry", 0, 3); if (sym == 2 && Z1 != Z2) sym = 1;
  j.args.push_back(opt("symmetry", sym));
  std::string m = method(c, std::min(nmethod, 6)); j.args.push_back(opt("method", m)); xpars(c, j, m);
  if (c.flag("iguess", 60)) j.args.push_back(opt("iguess", c.knob("guess", 0, 3)));
  if (c.flag("purem", 40)) j.args.push_back(opt("purem", c.knob("pm", 0, 1) && sym ? 1 : 0));
  if (c.flag("field", 20)) { if (sym == 2 || c.flag("bz", 50)) { if (sym != 3) j.args.push_back(optd("Bz", 0.05)); } else j.args.push_back(optd("Ez", 0.01)); }
  if (c.flag("angstrom", 10)) j.args.push_back(opt("angstrom", 1));
  j.args.push_back(opt("ldft", 6)); j.args.push_back(opt("mdft", 5));
  if (sym == 1 && !avg && c.flag("readocc", 35)) { j.inputs["occs.dat"] = std::to_string((ne + 1) / 2) + " " + std::to_string(ne / 2) + " 0\n"; j.args.push_back(opt("readocc", 1)); }
  if (c.flag("verbosity", 30)) j.args.push_back(opt("verbosity", c.knob("verb", 0, 1) ? 1 : 5));
  j.steps = (int)c.knob("steps", 0, 2);
  return j;
}
inline Job job_gensap(Ctx &c, bool tiny, int nmethod) {
  static const char *el[] = {"H", "He", "Li", "Be", "B", "C"};
  Job j; j.prog = "gensap";
  int lmax = (int)c.knob("lmax", 0, tiny ? 1 : 2), Z = (int)c.knob("Z", 1, lmax ? 6 : 4);
  j.args = {opt("Z", std::string(el[Z - 1])), opt("lmax", lmax)};
  radial(c, j, tiny ? 3 : 5);
  bool avg = c.flag("M0", 25); j.args.push_back(opt("M", avg ? 0 : (Z % 2 ? 2 : 1)));
  std::string m = method(c, std::min(nmethod, 5)); if (m == "hyb_gga_xc_b3lyp") m = "lda_x-lda_c_vwn"; // no exact exchange in this program
  if (m == "HF") m = "lda_x";
  j.args.push_back(opt("method", m)); xpars(c, j, m);
  if (c.flag("iguess", 60)) j.args.push_back(opt("iguess", c.knob("guess", 0, 3)));
  if (c.flag("occs", 25)) { // occupations by hand, possibly fractional
    int na = (Z + 1) / 2, nb = Z / 2; double q = (double[]){0, 0.25, 0.5, 0.75, 0.03125, 1.96875, 0.0009765625, 1.0}[c.knob("fraction", 0, 7)]; std::ostringstream os; os.precision(12);
    auto split = [&](double n) { double p = lmax ? std::min(n, q) : 0; os << (os.str().empty() ? "" : " ") << n - p; for (int i = 1; i <= lmax; i++) os << " " << (i == 1 ? p : 0.0); };
    if (avg || Z % 2 == 0) split(Z); else { split(na); split(nb); }
    j.args.push_back(opt("occs", os.str()));
  }
  if (c.flag("confinement", 15)) { j.args.push_back(opt("iconf", 1)); j.args.push_back(opt("conf_N", 2)); j.args.push_back(optd("conf_R", 5)); }
  if (c.flag("verbosity", 30)) j.args.push_back(opt("verbosity", c.knob("verb", 0, 1) ? 1 : 5));
  j.steps = (int)c.knob("steps", 0, 2); j.batch = (int)c.knob("batch", 1, 3);
  return j;
}
inline void gensap_outputs(Ctx &c, Job &j) {
  if (c.flag("pot", 70)) j.args.push_back(opt("pot", std::string(c.flag("potkind", 50) ? "lda_x" : "lda_x-lda_c_vwn")));
  if (c.flag("savepot", 40)) j.args.push_back(opt("savepot", 1));
  if (c.flag("saveing", 50)) j.args.push_back(opt("saveing", 1));
  if (c.flag("saveorb", 50)) j.args.push_back(opt("saveorb", 1));
  if (c.flag("profiles", 20)) j.args.push_back(opt("completeness", 1));
  if (c.flag("save", 50)) j.args.push_back(opt("save", std::string("out.chk")));
}
inline Job job_aij(Ctx &c, bool tiny) {
  Job j; j.prog = "aij";
  int lmax = (int)c.knob("lmax", 0, 2), nj = (int)c.knob("njellium", 0, 2) * 2, Z = (int)c.knob("Z", nj ? 0 : 1, 3);
  j.args = {opt("Z", (int64_t)Z), opt("lmax", lmax), opt("njellium", nj), optd("rs", 2 + 0.5 * c.knob("rs", 0, 6)), optd("nufreq", 0.25 * c.knob("nufreq", 0, 4))};
  radial(c, j, tiny ? 3 : 5);
  int ne = Z + nj; bool avg = c.flag("M0", 40); j.args.push_back(opt("M", avg ? 0 : (ne % 2 ? 2 : 1)));
  if (c.flag("vacancy", 15)) j.args.push_back(opt("vacancy", 1));
  if (c.flag("zeroright", 30)) j.args.push_back(opt("zeroright", 1));
  static const char *m[] = {"lda_x", "lda_x-lda_c_vwn", "gga_x_pbe-gga_c_pbe", "lda_x-gga_c_pbe"}; std::string me = m[c.knob("method", 0, 3)]; j.args.push_back(opt("method", me)); xpars(c, j, me);
  j.steps = (int)c.knob("steps", 0, 2); j.batch = (int)c.knob("batch", 1, 2);
  return j;
}
inline Job job_1e_atom(Ctx &c, bool tiny) {
  Job j; j.prog = "1e_atom"; j.args = {opt("Z", c.knob("Z", 1, 20)), opt("lmax", c.knob("lmax", 0, 3))}; radial(c, j, tiny ? 3 : 6);
  if (c.flag("finitenuc", 30)) { j.args.push_back(opt("finitenuc", c.knob("nucmodel", 1, 3))); j.args.push_back(optd("Rrms", 0.01)); }
  if (c.flag("save", 70)) j.args.push_back(opt("save", std::string("atom.chk")));
  return j;
}
inline Job job_diatomic_1e(Ctx &c, bool tiny, bool nuclei = true) {
  Job j; j.prog = "diatomic_1e"; int mmax = (int)c.knob("mmax", 0, 1);
  j.args = {opt("Z1", nuclei ? c.knob("Z1", 1, 3) : 0), opt("Z2", nuclei ? c.knob("Z2", 0, 3) : 0), optd("Rbond", 1.0 + 0.1 * c.knob("R", 0, 30))};
  if (c.flag("lmlist", 50)) j.args.push_back(opt("lmax", mmax ? std::string("2,1") : std::string("2")));
  else { j.args.push_back(opt("lmax", c.knob("lmax", 1, 2))); j.args.push_back(opt("mmax", mmax)); }
  radial(c, j, tiny ? 2 : 4); if (c.flag("save", 70)) j.args.push_back(opt("save", std::string("di.chk")));
  early_quadrature(c, j);
  return j;
}
inline std::string saved(const Job &j, const std::string &def) { for (auto &a : j.args) if (a.rfind("--save=", 0) == 0) return a.substr(7); return def; }
inline Chain chain_density_line(Ctx &c, bool tiny) {
  Chain k; Job p = job_diatomic(c, tiny, 2); p.args.push_back(opt("save", std::string("mol.chk"))); k.pre.push_back(p);
  k.job.prog = "density_line"; k.job.args = {opt("load", std::string("mol.chk")), optd("x", 0.1 * c.knob("x", 0, 10)), optd("y", 0.1 * c.knob("y", 0, 5)), optd("zmin", -3), optd("zmax", 3), opt("Nz", c.knob("Nz", 2, 60))};
  if (c.flag("savedens", 50)) k.job.args.push_back(opt("savedens", std::string("line.txt")));
  return k;
}
inline Chain chain_density_grid(Ctx &c, bool tiny) {
  Chain k; Job p = job_diatomic_1e(c, tiny); k.pre.push_back(p);
  k.job.prog = "density_grid"; k.job.args = {opt("load", saved(p, "helfem.chk")), opt("nquad", c.knob("nquad", 4, 12)), opt("lang", c.knob("lang", 3, 8)), opt("mang", c.knob("mang", 3, 6))};
  if (c.flag("output", 50)) k.job.args.push_back(opt("output", std::string("g.h5")));
  return k;
}
inline Chain chain_completeness(Ctx &c, bool tiny, int atoms) {
  // with nuclei, the program solves two atoms in a large basis
  Chain k; Job p = job_diatomic_1e(c, tiny, c.flag("atoms", atoms)); k.pre.push_back(p);
  k.job.prog = "completeness"; k.job.args = {opt("load", saved(p, "helfem.chk")), opt("ldft", c.knob("ldft", 5, 10)), opt("completeness", c.knob("upto", -1, 1)), optd("minexp", 0.1), optd("maxexp", 100), opt("nexp", c.flag("manyexp", 8) ? 195 + c.knob("nexpbig", 0, 210) : c.knob("nexp", 1, 8)), opt("iprobe", c.knob("iprobe", 0, 1))};
  return k;
}
inline Job job_harmonic(Ctx &c) {
  Job j; j.prog = "harmonic"; int fam = family(c), nn = (int)c.knob("nnodes", 3, fam == 5 ? 3 : 6);
  j.args = {std::to_string(4 + c.knob("xmax", 0, 6)), std::to_string(c.knob("nelem", 4, 8)), std::to_string(nn), std::to_string(fam), std::to_string(4 * nn)}; return j;
}
inline Job job_morse(Ctx &c) {
  Job j; j.prog = "morse"; int fam = c.flag("hip", 25) ? 5 : 4;
  j.args = {optd("rmax", 10), opt("nelem", c.knob("nelem", 5, 8)), opt("nnodes", fam == 5 ? 4 : c.knob("nnodes", 5, 7)), opt("primbas", (int64_t)fam), optd("De", 1 + c.knob("De", 0, 5)), optd("m", 1 + c.knob("m", 0, 20))};
  if (c.flag("save", 50)) j.args.push_back(opt("save", std::string("m.chk")));
  return j;
}
inline Job job_softcoulomb(Ctx &c) {
  Job j; j.prog = "softcoulomb"; int fam = c.flag("hip", 25) ? 5 : 4;
  j.args = {optd("xmax", 10), opt("nelem", c.knob("nelem", 5, 8)), opt("nnodes", fam == 5 ? 4 : c.knob("nnodes", 5, 7)), opt("primbas", (int64_t)fam), opt("Z1", c.knob("Z1", 1, 3)), opt("Z2", c.knob("Z2", 0, 3)), optd("R", 1 + 0.5 * c.knob("R", 0, 4)), optd("alpha", 1)};
  if (c.flag("abs", 30)) j.args.push_back(opt("abs", 1));
  if (c.flag("save", 50)) j.args.push_back(opt("save", std::string("s.chk")));
  return j;
}
inline Job job_corebasis(Ctx &c) {
  Job j; j.prog = "corebasis"; j.args = {opt("Z1", c.knob("Z1", 1, 2)), opt("Z2", c.knob("Z2", 0, 2)), optd("Rbond", 1.4 + 0.2 * c.knob("R", 0, 5)), optd("Rmax", 10), opt("nnodes", c.knob("nnodes", 3, 4)), opt("thresh", c.knob("thresh", 0, 1)), opt("imodel", c.knob("imodel", 0, 2)), opt("nadd", c.knob("nadd", 1, 2))}; return j;
}
}
