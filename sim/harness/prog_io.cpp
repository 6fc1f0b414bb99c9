// Whole programs under simulated files (properties P19, P20, P21): HelFEM's own
// main functions run to the end, first undisturbed, then with failing, short
// and torn transfers, a full disk, and process crashes; what a program that
// reports success has printed and written must be what the undisturbed run did.
#include "bases.h"
#include "prog_common.h"
#include "h5cmp.h"
#include "simos.h"
#include <hdf5.h>
#include <helfem.h>
using namespace hs;
using namespace sim;
using namespace helfem;

namespace sim { void prepare_child(Ctx &) { helfem::set_verbosity(false); H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); } }
[[noreturn]] static void bad(const std::string &sig, const std::string &msg) { violation(INVARIANT, sig, msg); }

// compare every file the undisturbed execution left behind
static std::string dir_diff(const std::string &A, const std::string &B) {
  auto a = list_dir(A), b = list_dir(B);
  for (auto &n : a) {
    std::string x = slurp_file(A + "/" + n), y = slurp_file(B + "/" + n);
    if (!std::count(b.begin(), b.end(), n)) return n + " was not written";
    if (x == y) continue;
    if (!is_h5(x)) { size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) i++; return n + " differs from byte " + std::to_string(i) + " (" + std::to_string(y.size()) + " bytes instead of " + std::to_string(x.size()) + ")"; }
    H5 u = h5_read(A + "/" + n);
    try { std::string d = h5_diff(u, h5_read(B + "/" + n), 0); if (!d.empty()) return n + ": " + d; }
    catch (const std::exception &e) { return n + " " + e.what(); }
  }
  for (auto &n : b) if (!std::count(a.begin(), a.end(), n)) return n + " is extra";
  return "";
}

// ------------------------------------------------------------ executions
struct MemKind { int kind = 0; uint64_t seed = 0; }; static MemKind g_memory;
static Outcome run_job(const std::string &dir, const Job &j, bool faults, uint32_t op, uint32_t crash_at = 0) {
  for (auto &x : j.inputs) { std::string p = dir + "/" + x.first; struct stat st; if (stat(p.c_str(), &st)) spit_file(p, x.second); }
  std::string log = dir + ".log"; Outcome o;
  io_fresh();
  o = in_child(dir, log, [&]() {
    io_in_child(X_STUCK); io_simulated_stdout(); g_clock.frozen = true; g_clock.tick_ns = 0; io_crash_at(crash_at, X_CRASH);
    io_enter(op, faults); io_hold_alloc(true);
    main_hook() = [](bool in) { if (in) { io_memory(g_memory.kind, g_memory.seed); io_hold_alloc(false); signal(SIGABRT, +[](int) { if (io_alloc_failed()) _exit(X_THREW); signal(SIGABRT, SIG_DFL); raise(SIGABRT); }); } else { io_memory(0, 0); io_hold_alloc(true); } };
    int rc = call_main(j, nullptr);
    fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush();
    if (rc == X_THREW) _exit(rc); // the shipped program ends in abort: no exit handlers
    // libhdf5 may trip over a file it failed to write when it shuts down; that is a visible failure, not HelFEM's crash
    if (io_damaged()) for (int s : {SIGSEGV, SIGABRT, SIGBUS}) signal(s, +[](int) { _exit(X_THREW); });
    return rc;
  });
  mix(o.log.data(), o.log.size()); int st = o.status; mix(&st, sizeof st);
  return o;
}
static std::string mkd(Ctx &c, const std::string &n) { std::string d = c.scratch + "/" + n; mkdir(d.c_str(), 0700); return d; }
static std::string tail(const std::string &s) { return s.size() > 300 ? s.substr(s.size() - 300) : s; }
static void fault_plan(Ctx &c, IoPlan &p) {
  int mode = (int)c.knob("mode", 0, 5);
  double q = (double[]){0.003, 0.012, 0.05}[c.knob("rate", 0, 2)];
  if (mode == 0) { p.p[SC_WRITE] = q * 2; p.p[SC_TRUNC] = p.p[SC_NAME] = q * 3; p.p[SC_CLOSE] = q * 2; }
  if (mode == 1) p.p_soft = 0.2;
  if (mode == 2) { for (int i = 0; i < SC_N; i++) p.p[i] = q; p.p_soft = 0.05; }
  if (mode == 3) p.capacity = (int64_t)(200.0 * std::pow(1.12, (double)c.knob("capacity", 0, 60)));
  if (mode == 4) { p.p[SC_READ] = q * 2; p.p[SC_OPEN] = q * 2; p.p[SC_STAT] = q; }
  if (mode == 5) { p.p[SC_CLOSE] = 0.15; p.p[SC_OPEN] = 0.1; p.p[SC_NAME] = 0.2; }
  p.sticky = (int)c.knob("sticky", 0, 70);
  if (c.flag("alloc", 15)) p.p_alloc = 0.5;
}
static std::string first_diff(const std::string &a, const std::string &b) {
  std::istringstream x(a), y(b); std::string u, v; int n = 0;
  for (;;) { bool p = (bool)std::getline(x, u), q = (bool)std::getline(y, v); n++; if (!p && !q) return "same"; if (p != q || u != v) return "line " + std::to_string(n) + ": '" + (q ? v : "<end>") + "' instead of '" + (p ? u : "<end>") + "'"; }
}
// what must hold of a disturbed execution, given the undisturbed one
static void judge(const Job &j, const Outcome &ref, const Outcome &o, const std::string &A, const std::string &B) {
  std::string what = j.cmd();
  if (o.stuck) return;
  uint64_t hard = io_hard(), soft = io_soft();
  if (!o.ok) {
    if (o.crashed) return;
    if (!hard) bad("program failed without a fault: " + j.prog, what + ": ended with status " + std::to_string(o.status) + " although no file operation had failed (" + std::to_string(soft) + " interrupted or short transfers): " + tail(o.log));
    if (o.status >= 128) bad("program killed: " + j.prog, what + ": " + o.why);
    probe("failure reported"); return;
  }
  if (o.log != ref.log) bad("success with wrong printout: " + j.prog, what + ": reported success after " + std::to_string(hard) + " failed file operations, but printed " + first_diff(ref.log, o.log));
  std::string d = dir_diff(A, B);
  if (!d.empty()) bad("success with wrong files: " + j.prog, what + ": reported success after " + std::to_string(hard) + " failed file operations, but " + d);
  if (hard) probe("fault survived"); else if (soft) probe("disturbed run verified"); else probe("quiet run verified");
}

// ==================================================================== P20
static Chain chain_for(Ctx &c, const std::string &kind) {
  Chain k;
  if (kind == "gensap") { k.job = job_gensap(c, false, 5); gensap_outputs(c, k.job); }
  else if (kind == "1e_atom") k.job = job_1e_atom(c, false);
  else if (kind == "aij") {
    k.job = job_aij(c, false);
    if (c.flag("saveorb", 60)) k.job.args.push_back(opt("saveorb", 1));
    if (c.flag("savefock", 60)) k.job.args.push_back(opt("savefock", std::string("f.dat")));
    if (c.flag("loadfock", 40)) { Job p = k.job; p.args.push_back(opt("savefock", std::string("guess.dat"))); std::vector<std::string> a; for (auto &x : p.args) if (x != "--savefock=f.dat") a.push_back(x); p.args = a; k.pre.push_back(p); k.job.args.push_back(opt("loadfock", std::string("guess.dat"))); }
  }
  else if (kind == "diatomic_1e") k.job = job_diatomic_1e(c, false);
  else if (kind == "density_line") k = chain_density_line(c, true);
  else if (kind == "density_grid") k = chain_density_grid(c, true);
  else if (kind == "completeness") k = chain_completeness(c, true, 25);
  else if (kind == "harmonic") k.job = job_harmonic(c);
  else if (kind == "morse") k.job = job_morse(c);
  else if (kind == "softcoulomb") k.job = job_softcoulomb(c);
  else if (kind == "corebasis") k.job = job_corebasis(c);
  else if (kind == "atomdb_dump") k.job.prog = kind;
  else if (kind == "atomic") { k.job = job_atomic(c, true, 6); if (c.flag("save", 50)) k.job.args.push_back(opt("save", std::string("a.chk"))); }
  else if (kind == "diatomic") { k.job = job_diatomic(c, true, 4); if (c.flag("save", 50)) k.job.args.push_back(opt("save", std::string("a.chk"))); }
  return k;
}
static void p20(Ctx &c, const std::string &kind) {
  IoPlan p; fault_plan(c, p);
  Chain k = chain_for(c, kind);
  if (!find_prog(k.job.prog)) return;
  io_start(c, p);
  uint32_t op = 1;
  std::string S = mkd(c, "s"), A = mkd(c, "a");
  for (auto &j : k.pre) {
    Outcome o = run_job(S, j, false, op++);
    if (!o.ok) { probe("input rejected"); return; }
  }
  // files a preparatory run left that the job under test would also write are kept: a rerun in the same directory
  copy_dir(S, A);
  Outcome ref = run_job(A, k.job, false, op++);
  if (ref.status >= 128) bad("program killed: " + k.job.prog, k.job.cmd() + ": " + ref.why + " " + tail(ref.log));
  if (!ref.ok) { probe("input rejected"); return; }
  probe((std::string("ran:") + k.job.prog).c_str());
  int n = (int)c.knob("histories", 1, 8); bool rerun = c.flag("rerun", 25); int litter = rerun ? 0 : (int)c.knob("litter", 0, 5);
  std::vector<std::string> outs; { std::vector<std::string> have = list_dir(S); for (auto &x : list_dir(A)) if (std::find(have.begin(), have.end(), x) == have.end() && !k.job.inputs.count(x)) outs.push_back(x); }
  for (int i = 0; i < n; i++) {
    op++; if (!io_wants(op)) continue;
    std::string B = mkd(c, "b" + std::to_string(i));
    copy_dir(rerun ? A : S, B); // rerun: over the files of an earlier execution
    if (!k.pre.empty() && rerun) copy_dir(S, B);
    // or over something else at the places it writes to: a longer file, or the beginning of its own results
    if (litter == 1 || litter == 2) { Rng r = c.rng("litter"); probe(litter == 1 ? "longer file in the way" : "unfinished file in the way"); for (auto &x : outs) { std::string t = slurp_file(A + "/" + x); if (litter == 2) t.resize(r.below(t.size() + 1)); else { std::string u; while (u.size() < t.size() + 200) u += " 1.2345678901234567e+00 7.7777777777e-05\n"; t = u; } spit_file(B + "/" + x, t); } }
    Outcome o = run_job(B, k.job, true, op);
    judge(k.job, ref, o, A, B);
  }
  // an input file that has lost its end, or is not there, is never silently half used
  std::vector<std::string> in; for (auto &x : list_dir(S)) for (auto &a : k.job.args) if (a.size() > x.size() && a.compare(a.size() - x.size() - 1, std::string::npos, "=" + x) == 0 && a.rfind("--load", 0) == 0) in.push_back(x);
  for (auto &f : in) {
    op++; if (!c.flag("cut", 60) || !io_wants(op)) continue;
    std::string B = mkd(c, "cut"); copy_dir(S, B); std::string t = slurp_file(B + "/" + f);
    Rng r = c.rng("cut"); size_t keep = c.flag("cutend", 40) ? t.size() - 1 - r.below(std::min<size_t>(40, t.size() - 1)) : r.below(t.size());
    if (truncate((B + "/" + f).c_str(), (off_t)keep)) {}
    Outcome o = run_job(B, k.job, false, op);
    if (o.stuck) continue;
    if (o.status >= 128) bad("program killed: " + k.job.prog, k.job.cmd() + ": " + o.why + " on a truncated " + f);
    if (o.ok) {
      auto strip = [&](const std::string &t) { std::istringstream is(t); std::string o, l; while (std::getline(is, l)) if (l.find(f) == std::string::npos) o += l + "\n"; return o; };
      std::string d = dir_diff(A, B); if (d.rfind(f, 0) == 0) d = "";
      if (strip(o.log) != strip(ref.log) || !d.empty()) bad("truncated input accepted: " + k.job.prog, k.job.cmd() + ": reported success with the first " + std::to_string(keep) + " of " + std::to_string(t.size()) + " bytes of " + f + ", and printed " + first_diff(strip(ref.log), strip(o.log)) + "; files: " + d);
    }
    probe(o.ok ? "truncated input harmless" : "truncated input refused");
  }
}

// ==================================================================== P21
static const char *const MEMORY[] = {"as it was", "zeros", "all bits set", "numbers of order one", "random numbers", "small integers"};
static void p21(Ctx &c, const std::string &kind) {
  IoPlan p; Chain k = chain_for(c, kind);
  if (!find_prog(k.job.prog)) return;
  io_start(c, p);
  uint32_t op = 1; std::string S = mkd(c, "s"), A = mkd(c, "a");
  for (auto &j : k.pre) if (!run_job(S, j, false, op++).ok) { probe("input rejected"); return; }
  copy_dir(S, A);
  g_memory = {1, 0}; Outcome ref = run_job(A, k.job, false, op++);
  if (ref.status >= 128) bad("program killed: " + k.job.prog, k.job.cmd() + ": " + ref.why + " " + tail(ref.log));
  probe((std::string(ref.ok ? "ran:" : "refused:") + k.job.prog).c_str());
  int n = (int)c.knob("executions", 1, 4);
  for (int i = 0; i < n; i++) {
    int how = (int)c.knob("memory" + std::to_string(i), 2, 5); Rng r = c.rng("memory"); g_memory = {how, r.next() + (uint64_t)i};
    op++; if (!io_wants(op)) continue;
    std::string B = mkd(c, "b" + std::to_string(i)); copy_dir(S, B);
    Outcome o = run_job(B, k.job, false, op); std::string w = k.job.cmd() + ": when memory first held " + MEMORY[how] + " instead of zeros, ";
    fault_fired((std::string("memory ") + MEMORY[how]).c_str());
    if (o.status != ref.status) bad("exit status depends on what memory held: " + k.job.prog, w + "the program ended with status " + std::to_string(o.status) + " instead of " + std::to_string(ref.status) + ": " + tail(o.log));
    if (o.log != ref.log) bad("printout depends on what memory held: " + k.job.prog, w + "it printed " + first_diff(ref.log, o.log));
    std::string d = dir_diff(A, B); if (!d.empty()) bad("files depend on what memory held: " + k.job.prog, w + d);
    probe(ref.ok ? "same results verified" : "same refusal verified");
  }
  g_memory = {};
}

#include "p21_lib.inc"

// ==================================================================== P19
struct Dens { Matrix Pa, Pb; int na, nb; double tra, trb, ekin; };
static Dens read_dens(const std::string &prog, const std::string &f) {
  Dens d; Checkpoint chk(f, false); Matrix S, T;
  if (prog == "atomic") { atomic::basis::TwoDBasis b; chk.read(b); S = b.overlap(); T = b.kinetic(); }
  else { diatomic::basis::TwoDBasis b; chk.read(b); S = b.overlap(); T = b.kinetic(); }
  chk.read("Pa", d.Pa); chk.read("Pb", d.Pb); chk.read("nela", d.na); chk.read("nelb", d.nb);
  d.tra = (d.Pa * S).trace(); d.trb = (d.Pb * S).trace(); d.ekin = ((d.Pa + d.Pb) * T).trace();
  return d;
}
// the value printed after the last occurrence of a label
static bool last_value(const std::string &log, const std::string &label, double &v) {
  size_t p = log.rfind(label); if (p == std::string::npos) return false;
  v = strtod(log.c_str() + p + label.size(), nullptr); return true;
}
static void check_sad(const Job &j, const std::string &f, const std::string &log) {
  std::string w = j.cmd() + ": " + f.substr(f.rfind('/') + 1);
  double ekin = 0, nrm = 0;
  try {
    Checkpoint k(f, false); int Z, lmax, prim, nn, nq; Vector bval;
    k.read("sadatom_Z", Z); k.read("sadatom_lmax", lmax); k.read("sadatom_primbas", prim); k.read("sadatom_nnodes", nn); k.read("sadatom_Nquad", nq); k.read("sadatom_bval", bval);
    std::shared_ptr<const polynomial_basis::PolynomialBasis> poly(polynomial_basis::get_basis(prim, nn));
    sadatom::basis::TwoDBasis b(Z, modelpotential::POINT_NUCLEUS, 0.0, poly, false, nq, bval, lmax);
    Matrix S = b.overlap(), T = b.kinetic(), Tl = b.kinetic_l();
    for (const char *g : {"a", "b"}) {
      std::string G(g); if (G == "b" && !k.exist("sadatom_occs_b")) break;
      Eigen::MatrixXi on; k.read("sadatom_occs_" + G, on);
      if (on.rows() != lmax + 1) bad("saved file unusable: gensap", w + ": occupations of " + std::to_string(on.rows()) + " angular momenta");
      for (int l = 0; l <= lmax; l++) {
        std::string L = std::to_string(l); Matrix P, C, o; k.read("sadatom_P" + G + "l_" + L, P); k.read("sadatom_C" + G + "l_" + L, C); k.read("sadatom_occ" + G + "l_" + L, o);
        Matrix D = Matrix::Zero(P.rows(), P.cols()); for (long i = 0; i < C.cols(); i++) D += o(i, 0) * C.col(i) * C.col(i).transpose();
        double m = P.size() ? P.cwiseAbs().maxCoeff() : 0, e = P.size() ? (P - D).cwiseAbs().maxCoeff() : 0;
        holds("saved orbitals and occupations make up the saved density (gensap)", e, 0, 1e-9, std::max(1.0, m));
        double tr = (P * S).trace(); if (std::abs(tr - std::round(tr)) < 1e-6) holds("saved occupations count the electrons of the saved density (gensap)", tr, on(l, 0), 1e-6, 1);
        ekin += (P * (T + l * (l + 1) * Tl)).trace(); nrm += tr;
      }
    }
  } catch (const std::exception &e) { bad("saved file unusable: gensap", w + " was saved by a run that reported success, but " + e.what()); }
  double ek; if (nrm > 0 && last_value(log, "Ekin ", ek)) { holds("saved density has the kinetic energy printed last (gensap)", ekin, ek, 1e-7, std::max(1.0, std::abs(ek))); probe("saved density verified"); }
}
static void check_file(const Job &j, const std::string &f, const std::string &log) {
  if (j.prog == "gensap") return check_sad(j, f, log);
  Dens d; std::string w = j.cmd() + ": " + f.substr(f.rfind('/') + 1);
  try { d = read_dens(j.prog, f); } catch (const std::exception &e) { bad("saved file unusable: " + j.prog, w + " was saved by a run that reported success, but " + e.what()); }
  bool split = d.na != d.nb && std::abs(d.tra - d.trb) < 1e-6; // restricted: each channel holds half
  double ea = split ? 0.5 * (d.na + d.nb) : d.na, eb = split ? 0.5 * (d.na + d.nb) : d.nb;
  if (std::max(d.na, d.nb) > d.Pa.rows()) return; // the basis cannot hold the electrons
  holds("saved alpha density holds nela electrons (" + j.prog + ")", d.tra, ea, 1e-6, 1); holds("saved beta density holds nelb electrons (" + j.prog + ")", d.trb, eb, 1e-6, 1);
  double ek; if (last_value(log, "kinetic ", ek)) { holds("saved density has the kinetic energy printed last (" + j.prog + ")", d.ekin, ek, 1e-7, std::max(1.0, std::abs(ek))); probe("saved density verified"); }
}
// the eigenvectors of a density are not unique
static bool orbitals_entry(const std::string &n) { return n.rfind("sadatom_C", 0) == 0 || n.rfind("sadatom_occ", 0) == 0; } // (and the rounded counts, which check_sad verifies)
static H5 dens_only(H5 h) { for (auto i = h.begin(); i != h.end();) if (orbitals_entry(i->first)) i = h.erase(i); else ++i; return h; }
static void p19(Ctx &c, const std::string &prog) {
  IoPlan p; fault_plan(c, p);
  Job j = prog == "atomic" ? job_atomic(c, true, 6) : prog == "diatomic" ? job_diatomic(c, true, 4) : job_gensap(c, true, 5);
  if (!find_prog(prog)) return;
  j.batch = 1; j.args.push_back(opt("save", std::string("a.chk")));
  Job l = j; l.steps = 0; l.args.back() = opt("save", std::string("b.chk")); l.args.push_back(opt("load", std::string("a.chk")));
  io_start(c, p);
  std::string A = mkd(c, "a"), L = mkd(c, "l"); uint32_t op = 1;
  uint64_t ncalls = io_syscalls();
  Outcome ref = run_job(A, j, false, op++);
  ncalls = io_syscalls() - ncalls;
  if (ref.status >= 128) bad("program killed: " + prog, j.cmd() + ": " + ref.why + " " + tail(ref.log));
  if (!ref.ok) { probe("input rejected"); return; }
  check_file(j, A + "/a.chk", ref.log);
  // restart: the same basis, no further iterations: the density comes back unchanged
  copy_dir(A, L);
  Outcome rl = run_job(L, l, false, op++);
  if (!rl.ok) bad("restart refused: " + prog, l.cmd() + ": ended with status " + std::to_string(rl.status) + ": " + tail(rl.log));
  {
    H5 a = h5_read(A + "/a.chk"), b = h5_read(L + "/b.chk"); std::string d;
    if (prog == "gensap") d = h5_diff(dens_only(a), dens_only(b), 1e-7); else { for (const char *n : {"Pa", "Pb"}) if (!a.count(n) || !b.count(n)) bad("saved file unusable: " + prog, std::string("no entry ") + n); d = h5_diff(a, b, 1e-7); }
    if (!d.empty()) bad("restart does not give the saved density back: " + prog, l.cmd() + ": saving right after loading: " + d);
    check_file(l, L + "/b.chk", rl.log);
    double e1, e2; if (prog != "gensap" && j.steps > 0 && last_value(ref.log, "total ", e1) && last_value(rl.log, "total ", e2)) { holds("first energy after a restart is the energy of the saved density (" + prog + ")", e2, e1, 1e-7, std::max(1.0, std::abs(e1))); probe("restart energy verified"); }
    probe("restart verified");
  }
  auto set = [](Job &q, const std::string &key, const std::string &val) { std::vector<std::string> v; for (auto &x : q.args) if (x.rfind("--" + key + "=", 0) != 0) v.push_back(x); v.push_back(opt(key, val)); q.args = v; };
  // the file may be saved over the one of an earlier calculation
  bool older = false; std::string O = mkd(c, "o"); Outcome rlo; op += 2;
  if (c.flag("older", 60)) {
    Job jo = j; int how = (int)c.knob("olderkind", 0, 3);
    if (how == 0) jo.steps = j.steps + 2; else if (how == 1) set(jo, "restricted", std::string(rl.log.find("unrestricted") != std::string::npos ? "1" : "0"));
    else if (how == 2) set(jo, "method", prog != "gensap" ? "none" : "lda_x"); else for (auto &a : jo.args) if (a.rfind("--nelem=", 0) == 0) a = opt("nelem", atoi(a.c_str() + 8) + 1);
    older = run_job(O, jo, false, op - 1).ok;
    if (older) { std::string D = mkd(c, "ol"); copy_dir(A, D); spit_file(D + "/a.chk", slurp_file(O + "/a.chk")); rlo = run_job(D, l, false, op); }
  }
  // what was left behind is refused, or the complete state of one of the calculations
  auto aftermath = [&](const std::string &B, bool over, const std::string &how) {
    op++; struct stat st; if (stat((B + "/a.chk").c_str(), &st)) { copy_dir(A, B); unlink((B + "/a.chk").c_str()); }
    Outcome q = run_job(B, l, false, op);
    if (q.stuck) return;
    if (q.status >= 128) bad("program killed: " + prog, l.cmd() + ": " + q.why + " on a checkpoint left behind by " + how);
    if (!q.ok) { probe("file left behind refused"); return; }
    if (q.log == rl.log) { probe("file left behind complete"); return; }
    if (over && rlo.ok && q.log == rlo.log) { probe("file left behind untouched"); return; }
    bad("restart from a half-written file: " + prog, l.cmd() + ": accepted a checkpoint left behind by " + how + (over ? ", which was saving over an earlier file" : "") + ", and printed " + first_diff(rl.log, q.log));
  };
  int n = (int)c.knob("histories", 1, 6);
  for (int i = 0; i < n; i++) {
    op++; std::string t = std::to_string(i); int what = (int)c.knob("what" + t, 0, 5); Rng r = c.rng("h" + t);
    if (!io_wants(op)) continue;
    std::string B = mkd(c, "h" + t);
    bool over = older && (what <= 1 || what >= 4) && r.below(3) != 0; if (over) spit_file(B + "/a.chk", slurp_file(O + "/a.chk"));
    if (what <= 1) { // saving under faults
      Outcome o = run_job(B, j, true, op); judge(j, ref, o, A, B);
      if (o.ok) probe(over ? "save over an earlier file verified" : "save under faults verified");
    } else if (what == 2) { // loading under faults
      copy_dir(A, B); Outcome o = run_job(B, l, true, op); judge(l, rl, o, L, B);
      if (o.ok) probe("load under faults verified");
    } else if (what == 3) { // a file that is missing, cut short, or of another program
      copy_dir(A, B); std::string f = B + "/a.chk"; int how = (int)r.below(5); std::string desc;
      if (how == 0) { unlink(f.c_str()); desc = "missing"; }
      else if (how == 1) { std::string s = slurp_file(f); size_t k = r.below(s.size()); if (truncate(f.c_str(), (off_t)k)) {} desc = "cut to " + std::to_string(k) + " of " + std::to_string(s.size()) + " bytes"; }
      else if (how == 2) { spit_file(f, "2 2\n1.0 0.0\n0.0 1.0\n"); desc = "not a checkpoint"; }
      else { // one of the entries is gone
        std::vector<std::string> names; for (auto &x : h5_read(f)) if (prog == "gensap" || x.first == "Pa" || x.first == "Pb" || x.first == "nela" || x.first == "nelb") names.push_back(x.first);
        if (prog == "gensap" || names.empty()) continue;
        std::string nme = names[r.below(names.size())]; hid_t h = H5Fopen(f.c_str(), H5F_ACC_RDWR, H5P_DEFAULT); H5Ldelete(h, nme.c_str(), H5P_DEFAULT); H5Fclose(h); desc = "without " + nme;
      }
      Outcome o = run_job(B, l, false, op);
      if (o.stuck) continue;
      if (o.status >= 128) bad("program killed: " + prog, l.cmd() + ": " + o.why + " on a checkpoint that is " + desc);
      if (o.ok) bad("bad restart file accepted: " + prog, l.cmd() + ": reported success with a checkpoint that is " + desc);
      probe("bad restart file refused");
    } else { // the process dies while saving; then a restart from what is there
      uint32_t at = 1 + (uint32_t)(r.below(2) ? r.below(std::max<uint64_t>(1, ncalls)) : r.below(1 + r.below(400)));
      Outcome o = run_job(B, j, c.flag("crashfaults", 20), op, at);
      if (!o.crashed) { judge(j, ref, o, A, B); continue; }
      probe("process crash while running");
      if (io_hard()) { probe("crash after a fault"); continue; } // a failed write has been, or is being, reported
      aftermath(B, over, "a crash at system call " + std::to_string(at));
    }
  }
  // restart with the other spin treatment, in lower symmetry, or over the file it came from
  auto total = [&](const std::string &f) { Matrix t; if (prog == "gensap") { Checkpoint k(f, false); int lm; k.read("sadatom_lmax", lm); for (int l = 0; l <= lm; l++) { Matrix p, q; k.read("sadatom_Pal_" + std::to_string(l), p); if (k.exist("sadatom_Pbl_" + std::to_string(l))) { k.read("sadatom_Pbl_" + std::to_string(l), q); p += q; } if (!t.size()) t = Matrix::Zero(p.rows() * (lm + 1), p.cols()); t.middleRows(l * p.rows(), p.rows()) = p; } } else { Dens d = read_dens(prog, f); t = d.Pa + d.Pb; } return t; };
  for (int i = 0; i < 3; i++) {
    op++; static const char *nm[] = {"otherspin", "lowersym", "inplace"}; if (!c.flag(nm[i], 25) || !io_wants(op)) continue;
    if (i == 1 && prog == "gensap") continue;
    Job m = l;
    if (i == 0) {
      bool pol; if (prog == "gensap") { Checkpoint k(A + "/a.chk", false); pol = k.exist("sadatom_occs_b"); int Z; k.read("sadatom_Z", Z); if (!pol && Z % 2 && Z > 1) continue; } // half of the electrons each need not fit
      else { Dens d = read_dens(prog, A + "/a.chk"); if (d.na != d.nb && d.na + d.nb > 1) continue; pol = rl.log.find("unrestricted") != std::string::npos || (d.Pa - d.Pb).cwiseAbs().maxCoeff() > 1e-8; }
      set(m, "restricted", pol ? "1" : "0");
    } else if (i == 1) set(m, "symmetry", "0");
    else set(m, "save", "a.chk");
    std::string B = mkd(c, nm[i]); copy_dir(A, B); Outcome o = run_job(B, m, false, op);
    if (o.status >= 128) bad("program killed: " + prog, m.cmd() + ": " + o.why + " " + tail(o.log));
    if (!o.ok) { if (i == 2) bad("restart refused: " + prog, m.cmd() + ": ended with status " + std::to_string(o.status) + ": " + tail(o.log)); probe("input rejected"); continue; }
    Matrix x, y; try { x = total(A + "/a.chk"); y = total(B + (i == 2 ? "/a.chk" : "/b.chk")); } catch (const std::exception &e) { bad("saved file unusable: " + prog, m.cmd() + ": " + e.what()); }
    double e = x.rows() == y.rows() && x.cols() == y.cols() ? (x - y).cwiseAbs().maxCoeff() : 1e300;
    if (!(e <= 1e-7 * std::max(1.0, x.cwiseAbs().maxCoeff()))) bad("restart does not give the saved density back: " + prog, m.cmd() + " (" + nm[i] + "): the total density differs by " + str(e) + " from the one in the file");
    probe((std::string("verified ") + nm[i]).c_str());
  }
  // restart in another basis: the electrons are all there
  op++;
  if (prog != "gensap" && c.flag("otherbasis", 30) && io_wants(op)) {
    Job m = l; for (auto &a : m.args) if (a.rfind("--nelem=", 0) == 0) a = opt("nelem", atoi(a.c_str() + 8) + 1);
    std::string B = mkd(c, "other"); copy_dir(A, B); Outcome o = run_job(B, m, false, op);
    if (o.ok) { Dens d; try { d = read_dens(prog, B + "/b.chk"); } catch (const std::exception &e) { bad("saved file unusable: " + prog, m.cmd() + ": " + e.what()); }
      double n = d.na + d.nb; // occupations beyond what an orbital can hold are cut off
      if (d.tra + d.trb > n + 1e-6) bad("electrons gained in a restart in another basis: " + prog, m.cmd() + ": " + str(d.tra + d.trb) + " electrons instead of " + str(n)); probe("restart in another basis verified"); }
  }
}

#define S20(n) static void p20_##n(Ctx &c) { p20(c, #n); }
S20(gensap) S20(aij) S20(diatomic_1e) S20(density_line) S20(density_grid) S20(completeness) S20(harmonic) S20(morse) S20(softcoulomb) S20(atomic) S20(diatomic) S20(corebasis) S20(atomdb_dump)
#define S21(n) static void p21_##n(Ctx &c) { p21(c, #n); }
S21(gensap) S21(aij) S21(diatomic_1e) S21(density_line) S21(density_grid) S21(completeness) S21(harmonic) S21(morse) S21(softcoulomb) S21(atomic) S21(diatomic) S21(corebasis) S21(atomdb_dump)
static void p21_1e_atom(Ctx &c) { p21(c, "1e_atom"); }
static void p20_1e_atom(Ctx &c) { p20(c, "1e_atom"); }
static void p19_atomic(Ctx &c) { p19(c, "atomic"); }
static void p19_diatomic(Ctx &c) { p19(c, "diatomic"); }
static void p19_gensap(Ctx &c) { p19(c, "gensap"); }
namespace sim {
const std::vector<Scenario> &all_scenarios() {
  static const std::vector<Scenario> s = {
    {"P19", "atomic", 3, p19_atomic}, {"P19", "diatomic", 3, p19_diatomic}, {"P19", "gensap", 2, p19_gensap},
    {"P20", "gensap", 4, p20_gensap}, {"P20", "1e_atom", 1, p20_1e_atom}, {"P20", "aij", 4, p20_aij}, {"P20", "diatomic_1e", 1, p20_diatomic_1e}, {"P20", "density_line", 2, p20_density_line},
    {"P20", "density_grid", 2, p20_density_grid}, {"P20", "completeness", 2, p20_completeness}, {"P20", "harmonic", 1, p20_harmonic}, {"P20", "morse", 1, p20_morse}, {"P20", "softcoulomb", 1, p20_softcoulomb},
    {"P20", "atomic", 2, p20_atomic}, {"P20", "diatomic", 2, p20_diatomic}, {"P20", "corebasis", 1, p20_corebasis}, {"P20", "atomdb_dump", 1, p20_atomdb_dump},
    {"P21", "gensap", 3, p21_gensap}, {"P21", "1e_atom", 1, p21_1e_atom}, {"P21", "aij", 2, p21_aij}, {"P21", "diatomic_1e", 1, p21_diatomic_1e}, {"P21", "density_line", 1, p21_density_line}, {"P21", "density_grid", 1, p21_density_grid}, {"P21", "completeness", 2, p21_completeness},
    {"P21", "harmonic", 1, p21_harmonic}, {"P21", "morse", 1, p21_morse}, {"P21", "softcoulomb", 1, p21_softcoulomb}, {"P21", "atomic", 5, p21_atomic}, {"P21", "diatomic", 5, p21_diatomic}, {"P21", "lib_atomic", 3, p21_lib_atomic}, {"P21", "lib_sadatom", 3, p21_lib_sadatom}, {"P21", "lib_diatomic", 3, p21_lib_diatomic}, {"P21", "lib_calls", 2, p21_lib_calls}, {"P21", "corebasis", 1, p21_corebasis}, {"P21", "atomdb_dump", 1, p21_atomdb_dump}};
  return s;
}
}
