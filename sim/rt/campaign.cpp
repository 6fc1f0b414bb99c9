#include "campaign.h"
#include <malloc.h>
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <exception>
#include <execinfo.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sched.h>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace sim {

static uint64_t hash_str(uint64_t h, const std::string &s) {
  for (unsigned char c : s) { h ^= c; h *= 0x100000001B3ull; }
  h ^= h >> 32; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29;
  return h;
}
Rng Ctx::rng(const std::string &name) const { Rng r(hash_str(seed ^ 0xABCDEF12345ull, name)); r.next(); return r; }

int64_t Ctx::knob(const std::string &name, int64_t lo, int64_t hi) {
  int64_t v;
  auto it = overrides.find(name);
  if (it != overrides.end()) { v = it->second; if (v < lo) v = lo; if (v > hi) v = hi; }
  else { Rng r = rng("knob:" + name); v = lo + (int64_t)r.below((uint64_t)(hi - lo + 1)); }
  if (g_sh) {
    size_t n = strlen(g_sh->knobs);
    snprintf(g_sh->knobs + n, sizeof g_sh->knobs - n, "%s=%lld,%lld;", name.c_str(), (long long)v, (long long)lo);
  }
  return v;
}
bool Ctx::flag(const std::string &name, int percent) {
  auto it = overrides.find(name);
  int64_t v;
  if (it != overrides.end()) v = it->second;
  else { Rng r = rng("knob:" + name); v = (int)r.below(100) < percent; }
  if (g_sh) { size_t n = strlen(g_sh->knobs); snprintf(g_sh->knobs + n, sizeof g_sh->knobs - n, "%s=%lld,0;", name.c_str(), (long long)v); }
  return v != 0;
}
std::string Ctx::output() const {
  fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush();
  std::string s; char buf[4096]; off_t o = 0; ssize_t n;
  while ((n = pread(out_fd, buf, sizeof buf, o)) > 0) { s.append(buf, n); o += n; }
  return s;
}
void Ctx::truncate_output() const {
  fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush();
  if (ftruncate(out_fd, 0)) {}
  lseek(out_fd, 0, SEEK_SET);
}

void probe(const char *name, uint64_t n) {
  if (!g_sh) return;
  for (uint32_t i = 0; i < g_sh->nprobe; i++) if (!strcmp(g_sh->probe_name[i], name)) { g_sh->probe_count[i] += n; return; }
  if (g_sh->nprobe < 64) {
    snprintf(g_sh->probe_name[g_sh->nprobe], 40, "%s", name);
    g_sh->probe_count[g_sh->nprobe++] = n;
  }
}
void fault_fired(const char *name) { char b[40]; snprintf(b, sizeof b, "fault:%s", name); probe(b); }

// ------------------------------------------------------------------ runs
struct RunSpec {
  const Scenario *sc = nullptr;
  uint64_t seed = 1;
  bool thorough = false;
  bool replay = false;
  std::map<std::string, int64_t> overrides;
  std::vector<Decision> decisions;
};
struct RunResult {
  int kind = 0;
  std::string sig, msg, knobs;
  uint64_t hash = 0;
  std::vector<Decision> dec;
  bool overflow = false;
  double wall = 0;
};

static std::string g_scratch_base;
static int g_outfd = -1;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static void rm_rf(const std::string &d) { if (getenv("SIM_KEEP")) return; // debugging aid
  DIR *dp = opendir(d.c_str());
  if (!dp) return;
  while (struct dirent *e = readdir(dp)) {
    std::string n = e->d_name; if (n == "." || n == "..") continue;
    std::string p = d + "/" + n; struct stat st;
    if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) rm_rf(p); else unlink(p.c_str());
  }
  closedir(dp); rmdir(d.c_str());
}

static void on_terminate() {
  std::string w = "unknown exception";
  if (auto e = std::current_exception()) {
    try { std::rethrow_exception(e); }
    catch (const std::exception &x) { w = x.what(); } catch (...) {}
  }
  std::string first = w.substr(0, w.find('\n'));
  violation(EXCEPTION, "uncaught exception: " + first, "uncaught exception: " + w);
}
static bool g_backtrace = false; // debugging aid, SIM_BACKTRACE=1
static void on_crash(int s) {
  // async-signal-safe: only touches the shared page
  if (g_sh && g_sh->kind == OK) {
    g_sh->kind = CRASH;
    const char *n = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : s == SIGBUS ? "SIGBUS" : "SIGILL";
    strcpy(g_sh->sig, "crash "); strcat(g_sh->sig, n);
    strcpy(g_sh->msg, "the simulated program was killed by "); strcat(g_sh->msg, n);
  }
  if (g_backtrace) { void *b[64]; int n = backtrace(b, 64); backtrace_symbols_fd(b, n, 2); }
  _exit(90);
}

static RunResult execute(const RunSpec &rs, double wall_limit = 300) {
  uint32_t nd = g_sh->ndec;
  memset((void *)g_sh, 0, offsetof(Shared, dec));
  memset((void *)g_sh->dec, 0, sizeof(Decision) * nd);
  if (ftruncate(g_outfd, 0)) {}
  lseek(g_outfd, 0, SEEK_SET);
  std::string dir = g_scratch_base + "/run";
  rm_rf(dir);
  mkdir(dir.c_str(), 0700);
  double t0 = now();
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0) {
    dup2(g_outfd, 1); dup2(g_outfd, 2);
    int dn = open("/dev/null", O_RDONLY); if (dn >= 0) dup2(dn, 0);
    if (chdir(dir.c_str())) _exit(91);
    struct rlimit rl = {120, 125}; setrlimit(RLIMIT_CPU, &rl);
    rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    signal(SIGPIPE, SIG_IGN);
    static char altstack[65536]; stack_t ss = {altstack, 0, sizeof altstack}; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    Ctx c; c.seed = rs.seed; c.scenario = rs.sc->name; c.thorough = rs.thorough; c.replay = rs.replay;
    c.overrides = rs.overrides; c.decisions = rs.decisions; c.scratch = dir; c.out_fd = g_outfd;
    prepare_child(c);
    try { rs.sc->fn(c); }
    catch (...) { on_terminate(); }
    fflush(stdout); fflush(stderr);
    _exit(0);
  }
  int st = 0; bool killed = false;
  for (;;) {
    // poll: cheap, and immune to a child that is stuck in a real lock
    pid_t r = waitpid(pid, &st, killed ? 0 : WNOHANG);
    if (r == pid) break;
    if (r < 0 && errno != EINTR) { perror("waitpid"); exit(3); }
    if (now() - t0 > wall_limit) { kill(pid, SIGKILL); killed = true; continue; }
    struct timespec ts = {0, now() - t0 < 0.02 ? 200000 : 2000000}; nanosleep(&ts, nullptr);
  }
  RunResult r; r.wall = now() - t0;
  r.kind = g_sh->kind; r.sig = g_sh->sig; r.msg = g_sh->msg; r.knobs = g_sh->knobs;
  r.hash = g_sh->sched_hash ^ (g_sh->result_hash * 0x9E3779B97F4A7C15ull);
  r.overflow = g_sh->dec_overflow;
  if (r.kind == OK) {
    if (killed || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL))) {
      r.kind = TIMEOUT; r.sig = "hang"; r.msg = "the run did not finish";
    } else if (WIFSIGNALED(st)) {
      r.kind = CRASH; r.sig = "crash signal " + std::to_string(WTERMSIG(st)); r.msg = "killed by " + r.sig;
    } else if (WEXITSTATUS(st) != 0) {
      r.kind = HARNESS; r.sig = "exit " + std::to_string(WEXITSTATUS(st)); r.msg = "unexpected exit of the simulated program";
    }
  }
  r.dec.assign(g_sh->dec, g_sh->dec + g_sh->ndec);
  rm_rf(dir);
  return r;
}

// race signatures name code addresses; the class of a race is the pair of sites
static bool same(const RunResult &a, const RunResult &b) { return a.kind == b.kind && a.sig == b.sig; }

static std::vector<std::pair<std::string, std::pair<int64_t, int64_t>>> parse_knobs(const std::string &k) {
  std::vector<std::pair<std::string, std::pair<int64_t, int64_t>>> v;
  std::istringstream is(k); std::string tok;
  while (std::getline(is, tok, ';')) {
    size_t e = tok.rfind('='), c = tok.rfind(',');
    if (e == std::string::npos || c == std::string::npos) continue;
    v.push_back({tok.substr(0, e), {atoll(tok.substr(e + 1).c_str()), atoll(tok.substr(c + 1).c_str())}});
  }
  return v;
}

static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

// Replay files are line based: key<space>value
static void write_replay(const std::string &path, const RunSpec &s, const RunResult &r, const std::string &note) {
  std::ofstream f(path);
  auto one = [](std::string x) { for (auto &c : x) if (c == '\n' || c == '\r') c = ' '; return x; };
  f << "helfem-sim-replay 1\n";
  f << "property " << s.sc->property << "\nscenario " << s.sc->name << "\nseed " << s.seed << "\ntier " << (s.thorough ? "thorough" : "quick") << "\n";
  f << "kind " << kind_name(r.kind) << "\nsignature " << one(r.sig) << "\nhash " << std::hex << r.hash << std::dec << "\n";
  f << "message " << one(r.msg) << "\nnote " << one(note) << "\n";
  for (auto &k : parse_knobs(r.knobs)) f << "knob " << k.first << " " << k.second.first << "\n";
  f << "# schedule/fault trace: thread local-event next-thread forced\n";
  for (auto &d : s.decisions) f << "d " << (int)d.t << " " << d.k << " " << (int)d.u << " " << (int)d.forced << " " << (int)d.pad << "\n";
  f << "end\n";
}
static bool read_replay(const std::string &path, RunSpec &s, RunResult &r, std::string &prop, std::string &scen) {
  std::ifstream f(path); std::string line;
  if (!std::getline(f, line) || line.rfind("helfem-sim-replay", 0)) return false;
  s.replay = true;
  while (std::getline(f, line)) {
    std::istringstream is(line); std::string k; is >> k;
    if (k == "property") is >> prop; else if (k == "scenario") is >> scen; else if (k == "seed") is >> s.seed;
    else if (k == "tier") { std::string t; is >> t; s.thorough = t == "thorough"; }
    else if (k == "kind") { std::string t; is >> t; for (int i = 0; i < 10; i++) if (t == kind_name(i)) r.kind = i; }
    else if (k == "signature") { std::getline(is, r.sig); if (!r.sig.empty()) r.sig.erase(0, 1); }
    else if (k == "hash") is >> std::hex >> r.hash >> std::dec;
    else if (k == "knob") { std::string n; int64_t v; is >> n >> v; s.overrides[n] = v; }
    else if (k == "d") { int t, u, fo, pa; uint32_t kk; is >> t >> kk >> u >> fo >> pa; Decision d; d.t = t; d.k = kk; d.u = u; d.forced = fo; d.pad = pa; s.decisions.push_back(d); }
  }
  return true;
}
static std::string one_line(std::string x) { for (auto &c : x) if (c == '\n' || c == '\r') c = ' '; return x; }

struct Totals {
  uint64_t runs = 0, events = 0, switches = 0, forced = 0, conflicts = 0, regions = 0, undersized = 0, permuted = 0, stalls = 0, sync_ops = 0, sim_ns = 0;
  uint32_t max_threads = 0;
  std::map<std::string, uint64_t> probes, per_scenario;
  std::unordered_set<uint64_t> hashes;
  std::set<uint64_t> fns;
  uint64_t nontrivial = 0;
  std::vector<std::string> samples;
};

static int run_main(int argc, char **argv) {
  std::map<std::string, std::string> a;
  for (int i = 1; i < argc; i++) {
    std::string s = argv[i];
    if (s.rfind("--", 0)) continue;
    std::string v = "1"; if (i + 1 < argc && strncmp(argv[i + 1], "--", 2)) v = argv[++i];
    a[s.substr(2)] = v;
  }
  auto get = [&](const char *k, const char *d) { return a.count(k) ? a[k] : std::string(d); };
  g_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_backtrace = getenv("SIM_BACKTRACE") != nullptr;
  if (g_sh == MAP_FAILED) { perror("mmap"); return 3; }
  const char *tmp = getenv("SIM_SCRATCH"); std::string base = tmp ? tmp : "/tmp";
  std::string tpl = base + "/simrun.XXXXXX"; std::vector<char> tb(tpl.begin(), tpl.end()); tb.push_back(0);
  if (!mkdtemp(tb.data())) { perror("mkdtemp"); return 3; }
  g_scratch_base = tb.data();
  struct Cleanup { ~Cleanup() { rm_rf(g_scratch_base); } } cleanup;
  g_outfd = open((g_scratch_base + "/out").c_str(), O_RDWR | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
  {
    cpu_set_t cs; CPU_ZERO(&cs);
    if (!sched_getaffinity(0, sizeof cs, &cs)) {
      std::vector<int> c; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &cs)) c.push_back(i);
      if (!c.empty()) { cpu_set_t one; CPU_ZERO(&one); CPU_SET(c[atoi(get("cpu", get("worker", "0").c_str()).c_str()) % c.size()], &one); sched_setaffinity(0, sizeof one, &one); }
    }
  }
  if (a.count("list")) { for (auto &s : all_scenarios()) printf("%s %s\n", s.property, s.name); return 0; }

  mallopt(M_PERTURB, 0x5c); // what fresh memory holds does not depend on what ran before
  if (a.count("replay")) {
    RunSpec s; RunResult want; std::string prop, scen;
    if (!read_replay(a["replay"], s, want, prop, scen)) { fprintf(stderr, "cannot read replay file\n"); return 2; }
    for (auto &x : all_scenarios()) if (prop == x.property && scen == x.name) s.sc = &x;
    if (!s.sc) { fprintf(stderr, "unknown scenario %s/%s\n", prop.c_str(), scen.c_str()); return 2; }
    RunResult r = execute(s);
    printf("replay: kind=%s hash=%llx sig=%s\n", kind_name(r.kind), (unsigned long long)r.hash, r.sig.c_str());
    printf("%s\n", r.msg.c_str());
    if (a.count("show")) { char buf[8192]; ssize_t n, o = 0; while ((n = pread(g_outfd, buf, sizeof buf, o)) > 0) { fwrite(buf, 1, n, stdout); o += n; } }
    if (r.kind == want.kind && one_line(r.sig) == want.sig && r.hash == want.hash) { printf("reproduced exactly\n"); return 1; }
    if (r.kind == OK) { printf("did not fail\n"); return 0; }
    printf("failed differently (expected kind=%s hash=%llx sig=%s)\n", kind_name(want.kind), (unsigned long long)want.hash, want.sig.c_str());
    return 4;
  }

  std::string property = get("property", "");
  uint64_t seed = strtoull(get("seed", "1").c_str(), nullptr, 10);
  int worker = atoi(get("worker", "0").c_str()), nworkers = atoi(get("nworkers", "1").c_str());
  uint64_t maxruns = strtoull(get("runs", "100").c_str(), nullptr, 10);
  double tlimit = atof(get("time", "60").c_str());
  bool thorough = get("tier", "quick") == "thorough";
  std::string only = get("scenario", "");
  std::vector<const Scenario *> scs, wheel;
  for (auto &s : all_scenarios()) if (property == s.property && (only.empty() ? (s.weight > 0 || thorough) : only == s.name)) scs.push_back(&s);
  if (scs.empty()) { fprintf(stderr, "no scenario for %s\n", property.c_str()); return 2; }
  { int mw = 0; for (auto *s : scs) mw = std::max(mw, std::abs(s->weight));
    for (int r = 0; r < mw; r++) for (auto *s : scs) if (r < std::abs(s->weight)) wheel.push_back(s); }

  // A failure is reported once a fresh process has reproduced it from its file. Code that reads memory it does not own
  // can behave differently there: then the search goes on, and the unconfirmed failure is reported only if none is confirmed.
  std::string path = get("replay-out", "replay.txt"), unconfirmed, broken;
  auto confirmed = [&]() {
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
      int dn = open("/dev/null", O_RDWR); dup2(dn, 0); dup2(dn, 1); dup2(dn, 2); unsetenv("SIM_NO_REEXEC"); setenv("SIM_SCRATCH", g_scratch_base.c_str(), 1);
      execl("/proc/self/exe", "campaign", "--replay", path.c_str(), (char *)nullptr); _exit(99);
    }
    int st = 0; while (pid > 0 && waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    return pid > 0 && WIFEXITED(st) && WEXITSTATUS(st) == 1;
  };
  FILE *log = a.count("log") ? fopen(a["log"].c_str(), "w") : nullptr;
  Totals T; double t0 = now(); int rc = 0; std::string vio_json;
  for (uint64_t i = worker; i < maxruns; i += nworkers) {
    if (now() - t0 > tlimit) break;
    RunSpec s; s.sc = wheel[i % wheel.size()]; s.thorough = thorough;
    s.seed = hash_str(hash_str(seed * 0x2545F4914F6CDD1Dull + 77, property), std::to_string(i)) >> 1;
    if (a.count("runseed")) s.seed = strtoull(a["runseed"].c_str(), nullptr, 10);
    RunResult r = execute(s);
    T.runs++; T.per_scenario[s.sc->name]++;
    T.events += g_sh->events; T.switches += g_sh->switches; T.forced += g_sh->forced; T.conflicts += g_sh->conflicts; T.regions += g_sh->regions;
    T.undersized += g_sh->teams_undersized; T.permuted += g_sh->chunks_permuted; T.stalls += g_sh->stalls; T.sync_ops += g_sh->sync_ops; T.sim_ns += g_sh->sim_ns;
    T.max_threads = std::max(T.max_threads, g_sh->max_threads);
    for (uint32_t k = 0; k < g_sh->nprobe; k++) T.probes[g_sh->probe_name[k]] += g_sh->probe_count[k];
    for (uint32_t k = 0; k < g_sh->nregion_fn; k++) T.fns.insert(g_sh->region_fn[k]);
    if (g_sh->switches + g_sh->forced > 0 || g_sh->nprobe > 0) { T.nontrivial++; T.hashes.insert(r.hash); }
    if (log) fprintf(log, "%llu %s seed=%llu kind=%s hash=%llx events=%llu wall=%.3f knobs=%s sig=%s\n", (unsigned long long)i, s.sc->name, (unsigned long long)s.seed, kind_name(r.kind), (unsigned long long)r.hash, (unsigned long long)g_sh->events, r.wall, r.knobs.c_str(), r.sig.c_str());
    if (log) fflush(log); // before the next run forks
    if (T.samples.size() < 3) T.samples.push_back(std::string(s.sc->name) + " seed " + std::to_string(s.seed) + ": " + r.knobs + " events=" + std::to_string(g_sh->events) + " switches=" + std::to_string(g_sh->switches + g_sh->forced));
    if (r.kind == OK) continue;
    if (r.kind == HARNESS) { fprintf(stderr, "harness error in %s seed %llu: %s %s\n", s.sc->name, (unsigned long long)s.seed, r.sig.c_str(), r.msg.c_str()); rc = 3; break; }
    if (a.count("keep-going")) { printf("FAIL %s seed=%llu kind=%s sig=%s wall=%.2f\n", s.sc->name, (unsigned long long)s.seed, kind_name(r.kind), r.sig.c_str(), r.wall); if (a.count("show")) { printf("  %s\n", r.msg.c_str()); char buf[8192]; ssize_t n, o = 0; while ((n = pread(g_outfd, buf, sizeof buf, o)) > 0) { fwrite(buf, 1, n, stdout); o += n; } } continue; }
    // ---- gate 1: the same seed must fail the same way
    RunResult r2 = execute(s);
    if (!same(r, r2) || r.hash != r2.hash) {
      fprintf(stderr, "nondeterminism: seed %llu gave %s [%s] %llx then %s [%s] %llx\n", (unsigned long long)s.seed, kind_name(r.kind), r.sig.c_str(), (unsigned long long)r.hash, kind_name(r2.kind), r2.sig.c_str(), (unsigned long long)r2.hash);
      broken = "nondeterminism"; continue;
    }
    // ---- minimise knobs (re-searching with the same seed)
    double mlim = std::min(unconfirmed.empty() ? 1e9 : 10, atof(get("minimise", "25").c_str())), m0 = now();
    RunSpec best = s; RunResult br = r;
    for (auto &k : parse_knobs(br.knobs)) best.overrides[k.first] = k.second.first;
    int tried = 0;
    if (r.kind != TIMEOUT) for (int pass = 0; pass < 2; pass++) {
      bool changed = false;
      for (auto &k : parse_knobs(br.knobs)) {
        int64_t v = best.overrides[k.first], lo = k.second.second;
        while (v > lo && now() - m0 < mlim * 0.4) {
          RunSpec t = best; t.overrides[k.first] = pass == 0 ? lo : (v + lo) / 2; tried++;
          RunResult tr = execute(t);
          if (!same(tr, br)) break;
          best = t; br = tr; changed = true; v = t.overrides[k.first];
        }
      }
      if (!changed) break;
    }
    // ---- minimise the recorded schedule
    size_t orig = br.dec.size();
    RunSpec rp = best; rp.replay = true; rp.decisions = br.dec;
    RunResult rr = br; bool replayed = false;
    if (r.kind != TIMEOUT && !br.overflow) {
      RunResult x = execute(rp);
      if (same(x, br)) {
        replayed = true; rr = x;
        size_t n = 2; std::vector<Decision> cur = rp.decisions;
        while (cur.size() > 1 && now() - m0 < mlim) {
          size_t chunk = (cur.size() + n - 1) / n; bool red = false;
          for (size_t b = 0; b < cur.size() && now() - m0 < mlim; b += chunk) {
            std::vector<Decision> t(cur.begin(), cur.begin() + b);
            t.insert(t.end(), cur.begin() + std::min(cur.size(), b + chunk), cur.end());
            RunSpec y = rp; y.decisions = t; tried++;
            RunResult yr = execute(y);
            if (same(yr, br)) { cur = t; rr = yr; red = true; n = std::max<size_t>(2, n - 1); break; }
          }
          if (!red) { if (chunk <= 1) break; n = std::min(cur.size(), n * 2); }
        }
        { RunSpec y = rp; y.decisions.clear(); RunResult yr = execute(y); if (same(yr, br)) { cur.clear(); rr = yr; } }
        rp.decisions = cur;
      } else fprintf(stderr, "note: recorded trace did not replay (%s [%s] %llx vs %s [%s]); falling back to the seed\n", kind_name(x.kind), x.sig.c_str(), (unsigned long long)x.hash, kind_name(br.kind), br.sig.c_str());
    }
    if (!replayed) { rc = r.kind == TIMEOUT ? 0 : 3; if (rc) { fprintf(stderr, "trace replay failed\n"); rc = 0; broken = "trace replay"; continue; } rp = best; rp.replay = true; rp.decisions = br.dec; RunResult x = execute(rp); rr = x; if (x.kind != TIMEOUT) { fprintf(stderr, "hang did not replay\n"); broken = "hang"; continue; } }
    std::ostringstream note; note << "minimised from " << orig << " to " << rp.decisions.size() << " trace entries in " << tried << " runs; found at run " << i << " of VERIF_SEED " << seed;
    auto report = [&]() {
      std::ostringstream o;
      o << "FOUND kind=" << kind_name(rr.kind) << " path=" << path << " sig=" << one_line(rr.sig) << "\nMESSAGE " << one_line(rr.msg) << "\nNOTE " << note.str() << " scenario=" << rp.sc->name << " knobs=" << rr.knobs << "\n";
      return o.str();
    };
    write_replay(path, rp, rr, note.str());
    bool sure = confirmed();
    if (!sure && !r.overflow && r.kind != TIMEOUT) { // as it was found, without minimising
      RunSpec full = s; full.replay = true; full.decisions = r.dec; for (auto &k : parse_knobs(r.knobs)) full.overrides[k.first] = k.second.first;
      RunResult x = execute(full);
      if (same(x, r)) {
        rename(path.c_str(), (path + ".min").c_str());
        write_replay(path, full, x, "not minimised: the minimised trace does not fail in a fresh process"); sure = confirmed();
        if (sure) { rp = full; rr = x; note << " (the minimised trace does not fail in a fresh process: this is the whole one)"; } else rename((path + ".min").c_str(), path.c_str());
        unlink((path + ".min").c_str());
      }
    }
    if (!sure) {
      fprintf(stderr, "note: [%s] of seed %llu does not reproduce in a fresh process, searching on\n", one_line(rr.sig).c_str(), (unsigned long long)s.seed);
      if (unconfirmed.empty()) { unconfirmed = report(); rename(path.c_str(), (path + ".first").c_str()); } else unlink(path.c_str());
      continue;
    }
    fputs(report().c_str(), stdout); unlink((path + ".first").c_str()); unconfirmed.clear();
    rc = 1; break;
  }
  if (!rc && !unconfirmed.empty()) { rename((path + ".first").c_str(), path.c_str()); fputs(unconfirmed.c_str(), stdout); rc = 1; }
  if (!rc && !broken.empty()) rc = 3;
  if (log) fclose(log);
  if (a.count("stats")) {
    std::ofstream f(a["stats"]);
    f << "{\"runs\":" << T.runs << ",\"events\":" << T.events << ",\"switches\":" << T.switches << ",\"forced\":" << T.forced << ",\"conflicts\":" << T.conflicts
      << ",\"regions\":" << T.regions << ",\"undersized\":" << T.undersized << ",\"permuted\":" << T.permuted << ",\"stalls\":" << T.stalls << ",\"sync_ops\":" << T.sync_ops
      << ",\"sim_ns\":" << T.sim_ns << ",\"max_threads\":" << T.max_threads << ",\"nontrivial\":" << T.nontrivial << ",\"wall\":" << now() - t0 << ",\"probes\":{";
    bool c = false; for (auto &p : T.probes) { f << (c ? "," : "") << jstr(p.first) << ":" << p.second; c = true; }
    f << "},\"per_scenario\":{"; c = false; for (auto &p : T.per_scenario) { f << (c ? "," : "") << jstr(p.first) << ":" << p.second; c = true; }
    f << "},\"fns\":["; c = false; for (auto x : T.fns) { f << (c ? "," : "") << x; c = true; }
    f << "],\"samples\":["; c = false; for (auto &x : T.samples) { f << (c ? "," : "") << jstr(x); c = true; }
    f << "],\"hashes\":["; c = false; for (auto x : T.hashes) { f << (c ? "," : "") << "\"" << std::hex << x << std::dec << "\""; c = true; }
    f << "]}\n";
  }
  return rc;
}
}
int main(int argc, char **argv) {
  // one address-space layout for every run, where the system allows it
  if (!getenv("SIM_NO_REEXEC")) {
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_NO_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  return sim::run_main(argc, argv); }
