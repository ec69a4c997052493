// Search driver: forks one process per simulated run (and per life after a crash), collects, gates, minimises, replays.
#include "scen.h"
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <exception>
#include <fstream>
#include <set>
#include <sstream>
#include "intern.h"

extern "C" void __asan_set_error_report_callback(void (*)(const char*)) __attribute__((weak));
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2000:handle_abort=0:detect_stack_use_after_return=0:"
         "quarantine_size_mb=32:abort_on_error=0:exitcode=77:symbolize=1:print_summary=1:max_malloc_fill_size=4096";
}
extern "C" const char* __tsan_default_options() { return ""; }

namespace sim {

static std::vector<Scenario>& scens() {
  static std::vector<Scenario> v;
  return v;
}
static std::vector<void (*)()>& warms() {
  static std::vector<void (*)()> v;
  return v;
}
Register::Register(const char* p, const char* n, double w, ScenFn f) { scens().push_back(Scenario{p, n, w, f}); }
RegisterWarm::RegisterWarm(void (*f)()) { warms().push_back(f); }

void note(const std::string& s) {
  uint64_t at = sh->userBlobLen;
  if (at + 4 + s.size() > sizeof(sh->userBlob)) harnessError("note space exhausted");
  uint32_t n = (uint32_t)s.size();
  memcpy(sh->userBlob + at, &n, 4);
  memcpy(sh->userBlob + at + 4, s.data(), n);
  sh->userBlobLen = at + 4 + n;
}
std::vector<std::string> notes() {
  std::vector<std::string> r;
  uint64_t at = 0;
  while (at + 4 <= sh->userBlobLen) {
    uint32_t n;
    memcpy(&n, sh->userBlob + at, 4);
    r.emplace_back((const char*)sh->userBlob + at + 4, n);
    at += 4 + n;
  }
  return r;
}

static double wallNow() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

struct Result {
  int status;
  std::string msg, log;
  uint64_t schedHash, histHash, steps;
  uint32_t nDev, nFault, nOps;
  std::vector<Deviation> dev;
  std::vector<FaultRec> faults;
  bool overflow;
  int lives;
};

static std::string cls(const std::string& m) {
  // violation class: text up to the first ':' and without digits
  std::string r;
  for (char c : m) {
    if (c == ':' || c == '\n') break;
    if (!isdigit((unsigned char)c)) r += c;
  }
  return r;
}

// ---- child ----
static void onAsan(const char* rep) {
  if (!sh || sh->status != kRunning) return;
  if (gTolerateHugeAlloc && strstr(rep, "allocator is trying to allocate")) { sh->status = kOk; return; }
  std::string r(rep);
  std::string kind = "memory error", where;
  auto p = r.find("AddressSanitizer: ");
  if (p != std::string::npos) {
    auto e = r.find_first_of(" \n", p + 18);
    kind = r.substr(p + 18, e - p - 18);
  }
  auto s = r.find("SUMMARY:");
  if (s != std::string::npos) where = r.substr(s, r.find('\n', s) - s);
  snprintf(sh->msg, sizeof sh->msg, "memory error %s: %s\n%.6000s", kind.c_str(), where.c_str(), rep);
  sh->status = kViolation;
}
static void onAbort(int) {
  if (sh && sh->status == kRunning) {
    snprintf(sh->msg, sizeof sh->msg, "process aborted: abort() called in the code under test");
    sh->status = kViolation;
  }
  syscall(SYS_exit_group, 0);
}
static void onTerminate() {
  if (sh && sh->status == kRunning) {
    const char* what = "unknown";
    std::string w;
    try {
      auto e = std::current_exception();
      if (e) std::rethrow_exception(e);
    } catch (const std::exception& e) {
      w = e.what();
      what = w.c_str();
    } catch (...) {
    }
    snprintf(sh->msg, sizeof sh->msg, "uncaught exception: %s", what);
    sh->status = kViolation;
  }
  syscall(SYS_exit_group, 0);
}

static void resetOut() {
  memset((void*)&sh->outBegin, 0, (size_t)((char*)&sh->outEnd - (char*)&sh->outBegin));
}

static SchedConfig swarmSched(Rng& r, bool thorough) {
  SchedConfig c;
  int x = (int)r.below(10);
  c.policy = x < 4 ? kRandomWalk : x < 7 ? kPct : x < 8 ? kRunToBlock : x < 9 ? kStarve : kRoundRobin;
  static const double ps[] = {0.02, 0.1, 0.3, 0.6, 0.95};
  c.pSync = ps[r.below(5)];
  static const uint64_t mb[] = {0, 0, 30, 150, 600, 3000, 20000};
  c.meanBlocks = mb[r.below(7)];
  if (c.policy == kRoundRobin) c.meanBlocks = 20 + r.below(2000);
  c.pctDepth = 1 + (int)r.below(6);
  static const uint64_t pl[] = {3000, 20000, 100000, 400000};
  c.pctLen = pl[r.below(4)];
  c.starveTid = (int)r.below(4);
  (void)thorough;
  return c;
}

// hook of the code under test: records per batch of an index
static uint32_t gIndexBatch;
extern "C" uint32_t vrs_sim_index_batch_size(uint32_t def) {
  // each batch of a cache file has a compressor of its own: very small ones cost too much
  return !gIndexBatch ? def : def == 50000 ? 60 * gIndexBatch : gIndexBatch;
}

static void childMain(const Scenario& sc, uint64_t seed, int life) {
  if (!sh->verbose) {
    int n = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY);
    dup2(n, 2);
    dup2(n, 1);
  }
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  struct rlimit nocore = {0, 0};
  setrlimit(RLIMIT_CORE, &nocore);
  if (__asan_set_error_report_callback) __asan_set_error_report_callback(onAsan);
  signal(SIGABRT, onAbort);
  signal(SIGPIPE, SIG_IGN);
  std::set_terminate(onTerminate);
  Ctx ctx;
  ctx.seed = seed;
  ctx.life = life;
  ctx.thorough = sh->thorough;
  ctx.rng.reseed(seed);
  Rng sr(seed ^ 0x1111);
  ctx.sched = swarmSched(sr, ctx.thorough);
  Rng ib(seed ^ 0x2222);
  static const uint32_t batches[] = {1, 2, 4, 15, 0, 0, 0, 0};
  gIndexBatch = batches[ib.below(8)];
  sc.fn(ctx);
  finish(kOk);
}

// Every simulated run is a child of a process forked from main() before it did anything that depends on what it was asked
// to do, and which allocates nothing: so runs start with the same heap in a search, in a minimisation and in a replay.
constexpr int kMaxWorkers = 64;
static int gZygote[kMaxWorkers], gWorker = 0;
static Shared* gShs[kMaxWorkers];
struct Request {
  const Scenario* sc;
  uint64_t seed;
  double timeout;
};

static void oneLife(const Request& q, int life) { // in a zygote
  sh->life = life;
  sh->status = kRunning;
  sh->seed = q.seed;
  pid_t pid = fork();
  if (pid < 0) { fprintf(stderr, "fork failed\n"); _exit(3); }
  if (pid == 0) {
    childMain(*q.sc, q.seed, life);
    _exit(0);
  }
  double end = wallNow() + q.timeout;
  int st = 0;
  sigset_t chld;
  sigemptyset(&chld);
  sigaddset(&chld, SIGCHLD);
  for (;;) {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    if (w < 0 && errno != EINTR) break;
    if (wallNow() > end) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      sh->status = kInconclusive;
      snprintf(sh->msg, sizeof sh->msg, "wall clock limit");
      break;
    }
    struct timespec ts = {1, 0};
    sigtimedwait(&chld, nullptr, &ts);
  }
  if (sh->status == kRunning) {
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGBUS || WTERMSIG(st) == SIGFPE || WTERMSIG(st) == SIGILL || WTERMSIG(st) == SIGABRT)) {
      snprintf(sh->msg, sizeof sh->msg, "process died: signal %d", WTERMSIG(st));
      sh->status = kViolation;
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
      snprintf(sh->msg, sizeof sh->msg, "memory error: (no report)");
      sh->status = kViolation;
    } else if (WIFEXITED(st)) {
      snprintf(sh->msg, sizeof sh->msg, "process exited: exit(%d) called in the code under test", WEXITSTATUS(st));
      sh->status = kViolation;
    } else {
      snprintf(sh->msg, sizeof sh->msg, "child ended by signal %d", WIFSIGNALED(st) ? WTERMSIG(st) : 0);
      sh->status = kInconclusive;
    }
  }
}

static void startZygotes(int n) {
  cpu_set_t all;
  CPU_ZERO(&all);
  bool pin = sched_getaffinity(0, sizeof all, &all) == 0 && CPU_COUNT(&all) > 0;
  for (int w = 0; w < n; w++) {
    int fds[2];
    if (syscall(SYS_socketpair, AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, fds)) { perror("socketpair"); _exit(3); }
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(3); }
    if (pid > 0) {
      syscall(SYS_close, fds[1]);
      gZygote[w] = fds[0];
      continue;
    }
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    syscall(SYS_close, fds[0]);
    for (int k = 0; k < w; k++) syscall(SYS_close, gZygote[k]);
    if (pin) {
      int want = w % CPU_COUNT(&all), c = 0;
      for (; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &all) && want-- == 0) break;
      cpu_set_t s;
      CPU_ZERO(&s);
      CPU_SET(c, &s);
      sched_setaffinity(0, sizeof s, &s);
    }
    sh = gShs[w];
    Request q;
    for (;;) {
      long k = syscall(SYS_read, fds[1], &q, sizeof q);
      if (k < 0 && errno == EINTR) continue;
      if (k != sizeof q) _exit(0);
      int life = 0;
      for (;; life++) {
        oneLife(q, life);
        if (sh->status != kCrashPoint || life >= 8) break;
      }
      if (syscall(SYS_write, fds[1], &life, sizeof life) != sizeof life) _exit(0);
    }
  }
}

static Result runOnce(const Scenario& sc, uint64_t seed, bool copyLists, double timeout = 60) {
  resetOut();
  Result R{};
  Request q{&sc, seed, timeout};
  int life = 0;
  if (syscall(SYS_write, gZygote[gWorker], &q, sizeof q) != sizeof q) { fprintf(stderr, "a zygote is gone\n"); _exit(3); }
  long k;
  while ((k = syscall(SYS_read, gZygote[gWorker], &life, sizeof life)) < 0 && errno == EINTR) {}
  if (k != sizeof life) { fprintf(stderr, "a zygote is gone\n"); _exit(3); }
  // the race detector's scenarios are other properties': what those find is theirs to report
  if (gRaceMode && sh->status == kViolation && strncmp(sh->msg, "data race", 9) != 0) {
    sh->status = kOk;
    probe("runs ended by a check of another property");
  }
  R.status = sh->status;
  R.msg = sh->msg;
  R.schedHash = sh->schedHash;
  R.histHash = sh->histHash;
  R.steps = sh->steps;
  R.nDev = sh->outDevCount;
  R.nFault = sh->outFaultCount;
  R.nOps = sh->nOps;
  R.overflow = sh->devOverflow;
  R.lives = life + 1;
  if (copyLists) {
    R.log = std::string(sh->log, sh->logLen);
    R.dev.assign(sh->dev, sh->dev + sh->outDevCount);
    R.faults.assign(sh->faults, sh->faults + sh->outFaultCount);
  }
  return R;
}
static void setReplay(const std::vector<Deviation>& d, const std::vector<FaultRec>& f) {
  sh->replay = 1;
  sh->inDevCount = (uint32_t)d.size();
  sh->inFaultCount = (uint32_t)f.size();
  std::copy(d.begin(), d.end(), sh->inDev);
  std::copy(f.begin(), f.end(), sh->inFaults);
}
static void setGenerate() { sh->replay = 0; sh->inDevCount = sh->inFaultCount = 0; }

// ---- minimisation ----
template <class T, class F>
static std::vector<T> ddmin(std::vector<T> v, F test, double deadline) {
  size_t n = 2;
  if (!v.empty() && wallNow() < deadline && test(std::vector<T>{})) return {};
  while (v.size() >= 2 && wallNow() < deadline) {
    size_t chunk = (v.size() + n - 1) / n;
    bool reduced = false;
    for (size_t i = 0; i < v.size() && wallNow() < deadline; i += chunk) {
      std::vector<T> w(v.begin(), v.begin() + i);
      w.insert(w.end(), v.begin() + std::min(v.size(), i + chunk), v.end());
      if (test(w)) {
        v = w;
        n = std::max<size_t>(n - 1, 2);
        reduced = true;
        break;
      }
    }
    if (!reduced) {
      if (chunk <= 1) break;
      n = std::min(v.size(), n * 2);
    }
  }
  return v;
}

struct Case {
  std::string scenario;
  uint64_t seed = 0;
  std::vector<uint32_t> off;
  std::vector<Deviation> dev;
  std::vector<FaultRec> faults;
  std::string msg, log;
  uint64_t schedHash = 0, histHash = 0, steps = 0;
};
static void setMask(const std::vector<uint32_t>& off) {
  memset(sh->opOff, 0, sizeof sh->opOff);
  for (auto i : off) if (i < kMaxOps) sh->opOff[i] = 1;
}

static bool minimise(const Scenario& sc, Case& c, double budget) {
  double deadline = wallNow() + budget;
  std::string want = cls(c.msg);
  // gate 1: the same seed again gives the same execution
  setMask({});
  setGenerate();
  Result a = runOnce(sc, c.seed, true);
  if (a.status != kViolation || a.overflow) return false;
  if (a.schedHash != c.schedHash || a.histHash != c.histHash || cls(a.msg) != want) return false;
  // drop workload steps, searching the schedule again from the same seed
  std::vector<uint32_t> on;
  for (uint32_t i = 0; i < std::min<uint32_t>(a.nOps, kMaxOps); i++) on.push_back(i);
  uint32_t nOps = (uint32_t)on.size();
  auto offOf = [&](const std::vector<uint32_t>& keep) {
    std::set<uint32_t> s(keep.begin(), keep.end());
    std::vector<uint32_t> off;
    for (uint32_t i = 0; i < nOps; i++) if (!s.count(i)) off.push_back(i);
    return off;
  };
  on = ddmin(on, [&](const std::vector<uint32_t>& keep) {
    setMask(offOf(keep));
    setGenerate();
    Result r = runOnce(sc, c.seed, false, 20);
    return r.status == kViolation && cls(r.msg) == want && !r.overflow;
  }, wallNow() + budget * 0.4);
  c.off = offOf(on);
  setMask(c.off);
  setGenerate();
  Result b = runOnce(sc, c.seed, true);
  if (b.status != kViolation || cls(b.msg) != want) return false;
  c.dev = b.dev;
  c.faults = b.faults;
  // gate 2: replaying the recorded choices gives the same violation
  auto replays = [&](const std::vector<Deviation>& d, const std::vector<FaultRec>& f) {
    setMask(c.off);
    setReplay(d, f);
    Result r = runOnce(sc, c.seed, false, 20);
    return r.status == kViolation && cls(r.msg) == want;
  };
  if (!replays(c.dev, c.faults)) return false;
  c.faults = ddmin(c.faults, [&](const std::vector<FaultRec>& f) { return replays(c.dev, f); }, wallNow() + (deadline - wallNow()) * 0.4);
  c.dev = ddmin(c.dev, [&](const std::vector<Deviation>& d) { return replays(d, c.faults); }, deadline);
  setMask(c.off);
  setReplay(c.dev, c.faults);
  Result r = runOnce(sc, c.seed, true);
  if (r.status != kViolation) return false;
  c.msg = r.msg;
  c.log = r.log;
  c.schedHash = r.schedHash;
  c.histHash = r.histHash;
  c.steps = r.steps;
  return true;
}

static void writeCase(const std::string& path, const Case& c, const std::string& prop, bool thorough) {
  std::ofstream o(path);
  o << "property " << prop << "\nscenario " << c.scenario << "\nseed " << c.seed << "\nthorough " << (thorough ? 1 : 0) << "\n";
  o << "schedhash " << c.schedHash << "\nhisthash " << c.histHash << "\nsteps " << c.steps << "\n";
  for (auto i : c.off) o << "off " << i << "\n";
  for (auto& f : c.faults) o << "fault " << f.io << " " << f.kind << " " << f.param << " # " << kFaultNames[f.kind] << " at I/O " << (f.io & 0xffffff) << " of life " << (f.io >> 24) << "\n";
  for (auto& d : c.dev) o << "dev " << d.step << " " << d.tid << "\n";
  o << "message " << cls(c.msg) << "\n";
  o << "text\n" << c.msg << "\n--- trace ---\n" << c.log;
}
static bool readCase(const std::string& path, Case& c, std::string& prop, bool& thorough) {
  std::ifstream in(path);
  if (!in) return false;
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string k;
    s >> k;
    if (k == "property") s >> prop;
    else if (k == "scenario") s >> c.scenario;
    else if (k == "seed") s >> c.seed;
    else if (k == "thorough") { int t; s >> t; thorough = t; }
    else if (k == "schedhash") s >> c.schedHash;
    else if (k == "histhash") s >> c.histHash;
    else if (k == "steps") s >> c.steps;
    else if (k == "off") { uint32_t i; s >> i; c.off.push_back(i); }
    else if (k == "fault") { FaultRec f{}; s >> f.io >> f.kind >> f.param; c.faults.push_back(f); }
    else if (k == "dev") { Deviation d{}; s >> d.step >> d.tid; c.dev.push_back(d); }
    else if (k == "message") { c.msg = line.size() > 8 ? line.substr(8) : ""; }
    else if (k == "text") break;
  }
  return !c.scenario.empty();
}

// ---- aggregated statistics ----
constexpr size_t kMaxHashes = 1 << 20;
struct Stats {
  uint64_t runs, ok, violations, inconclusive, harnessErrors, unreproduced, crashLives, nontrivial;
  uint64_t steps, blocks, switches, ioOps, simNs, seam, threads, ops, preemptRuns, faultRuns;
  uint64_t faultCount[fKindCount];
  uint64_t scen[64];
  uint64_t detChecks, detMismatch, replayChecks, replayMismatch;
  char firstErr[2048];
  uint64_t nHashes;
  uint64_t hashes[kMaxHashes];
  int nSamples;
  char samples[4][3000];
};
struct Global {
  volatile int stop;
  volatile int found;  // worker index + 1
  volatile uint64_t nextRun;
  int sealed;
};

static std::string jesc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r;
}

static Shared* newShared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Shared*)p;
}

} // namespace sim
using namespace sim;


static const Scenario* pickScen(const std::vector<const Scenario*>& v, Rng& r) {
  double t = 0;
  for (auto s : v) t += s->weight;
  double x = r.unit() * t;
  for (auto s : v) { x -= s->weight; if (x <= 0) return s; }
  return v.back();
}

int main(int argc, char** argv) {
  // same address space layout in every process, where the kernel lets us
  if (!getenv("VRSSIM_NOASLR")) {
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) {
      setenv("VRSSIM_NOASLR", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  // nothing before the zygotes are started may use the heap according to the arguments or the environment
  {
    static char* env[256];
    static char e1[] = "TMPDIR=/sim/tmp", e2[] = "HOME=/sim/home", e3[] = "TZ=UTC";
    size_t n = 0;
    env[n++] = e1;
    env[n++] = e2;
    env[n++] = e3;
    for (char** e = environ; *e && n < 255; e++)
      if (!strncmp(*e, "VRSSIM_", 7) || !strncmp(*e, "PATH=", 5) || strstr(*e, "SAN_OPTIONS=")) env[n++] = *e;
    environ = env;
  }
  int nz = 0;
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--workers") && i + 1 < argc) nz = atoi(argv[i + 1]);
    if (!strcmp(argv[i], "--run") || !strcmp(argv[i], "--replay")) { nz = 1; break; }
  }
  if (nz <= 0) {
    cpu_set_t s;
    CPU_ZERO(&s);
    nz = sched_getaffinity(0, sizeof s, &s) == 0 ? CPU_COUNT(&s) : 4;
  }
  if (nz > kMaxWorkers) nz = kMaxWorkers;
  for (int w = 0; w < nz; w++) gShs[w] = newShared();
  sh = gShs[0];
  sigset_t chld;
  sigemptyset(&chld);
  sigaddset(&chld, SIGCHLD);
  sigprocmask(SIG_BLOCK, &chld, nullptr);

  fs::removeAll();
  fs::mkdirs("/sim/tmp");
  fs::mkdirs("/sim/home");
  {
    fflush(stdout);
    fflush(stderr);
    int n = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY), o1 = dup(1), o2 = dup(2);
    dup2(n, 1);
    dup2(n, 2);
    for (auto w : warms()) w();
    fflush(stdout);
    fflush(stderr);
    dup2(o1, 1);
    dup2(o2, 2);
    syscall(SYS_close, n);
    syscall(SYS_close, o1);
    syscall(SYS_close, o2);
  }
  fs::removeAll();
  fs::mkdirs("/sim/tmp");
  fs::mkdirs("/sim/home");

  startZygotes(nz);

  std::string prop, tier = "quick", evidence, replay, only, outDir = ".", level = "exploration", known;
  uint64_t seed = 1;
  double budget = 30, minBudget = 25;
  int workers = 0;
  uint64_t maxRuns = 0;
  bool verbose = false, list = false;
  int64_t oneRun = -1;
  std::string hashOut;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property") prop = next();
    else if (a == "--tier") tier = next();
    else if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--budget") budget = atof(next().c_str());
    else if (a == "--min-budget") minBudget = atof(next().c_str());
    else if (a == "--workers") workers = atoi(next().c_str());
    else if (a == "--evidence") evidence = next();
    else if (a == "--replay") replay = next();
    else if (a == "--only") only = next();
    else if (a == "--out") outDir = next();
    else if (a == "--max-runs") maxRuns = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--run") oneRun = atoll(next().c_str());
    else if (a == "--known") known = next();
    else if (a == "--hash-out") hashOut = next();
    else if (a == "-v") verbose = true;
    else if (a == "--list") list = true;
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
  }
  if (list) {
    for (auto& s : scens()) printf("%s %s %g\n", s.property, s.name, s.weight);
    return 0;
  }
  bool thorough = tier == "thorough";
  workers = nz;
  sh->verbose = verbose;
  sh->thorough = thorough;
  for (int w = 0; w < nz; w++) { gShs[w]->verbose = verbose; gShs[w]->thorough = thorough; }
  if (!replay.empty()) {
    Case c;
    if (!readCase(replay, c, prop, thorough)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 3; }
    sh->thorough = thorough;
    const Scenario* sc = nullptr;
    for (auto& s : scens()) if (c.scenario == s.name) sc = &s;
    if (!sc) { fprintf(stderr, "no scenario %s\n", c.scenario.c_str()); return 3; }
    setMask(c.off);
    setReplay(c.dev, c.faults);
    Result r = runOnce(*sc, c.seed, true);
    bool exact = r.schedHash == c.schedHash && r.histHash == c.histHash && r.steps == c.steps;
    if (r.status == kViolation) {
      printf("reproduced%s: %s\n", exact ? " exactly" : " (different trace)", r.msg.c_str());
      printf("%s", r.log.c_str());
      if (cls(r.msg) != cls(c.msg)) { printf("different violation class, expected: %s\n", c.msg.c_str()); return 4; }
      return exact ? 1 : 5;
    }
    printf("not reproduced: status %d %s\n", r.status, r.msg.c_str());
    return r.status == kOk ? 0 : 3;
  }

  std::vector<const Scenario*> mine;
  const std::string forRaces = gRaceMode ? " C01 C02 C03 C06 C07 C08 C09 C10 C18 C19 C20 " : "";
  for (auto& s : scens())
    if ((prop.empty() || prop == s.property || (prop == "C22" && forRaces.find(" " + std::string(s.property) + " ") != std::string::npos)) && (only.empty() || only == s.name)) mine.push_back(&s);
  if (mine.empty()) { fprintf(stderr, "no scenario for property %s\n", prop.c_str()); return 3; }
  std::sort(mine.begin(), mine.end(), [](auto a, auto b) { return strcmp(a->name, b->name) < 0; });

  auto seedOf = [&](uint64_t i) { return Rng::mix(seed * 0x100000001b3ull + i * 0x9e3779b97f4a7c15ull + 0xabc) >> 1; };
  auto scenOf = [&](uint64_t i) { Rng r(seedOf(i) ^ 0x777); return pickScen(mine, r); };

  if (oneRun >= 0) {
    const Scenario* sc = scenOf((uint64_t)oneRun);
    setGenerate();
    double t0 = wallNow();
    Result r = runOnce(*sc, seedOf((uint64_t)oneRun), true);
    if (getenv("VRSSIM_DET")) { // replay the recorded choices
      printf("generated: status %d steps %lu sched %lx hist %lx dev %u overflow %d\n", r.status, (unsigned long)r.steps, (unsigned long)r.schedHash, (unsigned long)r.histHash, r.nDev, (int)r.overflow);
      setReplay(r.dev, r.faults);
      r = runOnce(*sc, seedOf((uint64_t)oneRun), true);
    }
    printf("run %ld scenario %s seed %lu status %d steps %lu dev %u faults %u lives %d sched %lx hist %lx ops %u wall %.3f\n%s\n", (long)oneRun, sc->name,
           (unsigned long)seedOf((uint64_t)oneRun), r.status, (unsigned long)r.steps, r.nDev, r.nFault, r.lives, (unsigned long)r.schedHash,
           (unsigned long)r.histHash, r.nOps, wallNow() - t0, r.msg.c_str());
    if (!verbose) printf("%s", r.log.c_str());
    return r.status == kOk ? 0 : 1;
  }

  std::vector<std::string> knownCls;
  if (!known.empty()) {
    std::ifstream in(known);
    std::string line;
    std::string pre = "known: property=" + prop + " ";
    while (std::getline(in, line))
      if (line.compare(0, pre.size(), pre) == 0) {
        auto a = line.find("class=\"");
        if (a == std::string::npos) continue;
        auto e = line.find('"', a + 7);
        knownCls.push_back(line.substr(a + 7, e - a - 7));
        printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), line.substr(e + 1).c_str());
      }
  }

  double t0 = wallNow();
  Global* G = (Global*)mmap(nullptr, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<Stats*> st;
  std::vector<Shared*> shs;
  std::vector<pid_t> pids;
  for (int w = 0; w < workers; w++) {
    st.push_back((Stats*)mmap(nullptr, sizeof(Stats), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    shs.push_back(gShs[w]);
  }
  std::string caseBase = outDir + "/replay-" + prop;
  for (int w = 0; w < workers; w++) {
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      sh = shs[w];
      gWorker = w;
      sh->thorough = thorough;
      Stats* S = st[w];
      FILE* ho = nullptr;
      if (!hashOut.empty()) ho = fopen((hashOut + "." + std::to_string(w)).c_str(), "w");
      while (!G->stop && wallNow() - t0 < budget) {
        uint64_t i = __sync_fetch_and_add(&G->nextRun, 1);
        if (maxRuns && i >= maxRuns) break;
        const Scenario* sc = scenOf(i);
        uint64_t sd = seedOf(i);
        setMask({});
        setGenerate();
        Result r = runOnce(*sc, sd, false);
        S->runs++;
        for (size_t k = 0; k < mine.size() && k < 64; k++) if (mine[k] == sc) S->scen[k]++;
        S->steps += sh->steps; S->blocks += sh->blocks; S->switches += sh->switches; S->ioOps += sh->ioOps;
        S->simNs += sh->simNs; S->seam += sh->seamCalls; S->threads += sh->nthreads; S->ops += sh->nOps;
        for (int k = 0; k < fKindCount; k++) S->faultCount[k] += sh->faultCount[k];
        if (sh->faultCount[fPreempt]) S->preemptRuns++;
        if (sh->outFaultCount) S->faultRuns++;
        S->crashLives += r.lives - 1;
        uint64_t h = Rng::mix(r.schedHash ^ (r.histHash * 3));
        for (uint32_t k = 0; k < sh->outFaultCount; k++) h = Rng::mix(h ^ ((uint64_t)sh->faults[k].io << 8) ^ sh->faults[k].kind);
        if (sh->nontrivial) {
          S->nontrivial++;
          if (S->nHashes < kMaxHashes) S->hashes[S->nHashes++] = h;
        }
        if (ho) fprintf(ho, "%lu %s %d %lx %lx %lu\n", (unsigned long)i, sc->name, r.status, (unsigned long)r.schedHash, (unsigned long)r.histHash, (unsigned long)r.steps);
        if (S->nSamples < 4 && r.status == kOk) {
          snprintf(S->samples[S->nSamples], sizeof S->samples[0], "run %lu scenario %s seed %lu: %lu steps, %lu switches, %u threads, %u ops, %u faults, %d crash(es), %.3f s simulated; trace: %.2300s",
                   (unsigned long)i, sc->name, (unsigned long)sd, (unsigned long)sh->steps, (unsigned long)sh->switches, sh->nthreads, sh->nOps, sh->outFaultCount, r.lives - 1, sh->simNs * 1e-9, sh->log);
          S->nSamples++;
        }
        if (r.status == kOk) {
          S->ok++;
          if (i % 64 == 5) { // determinism self-test: same seed again, then replay of the recorded choices
            Result r2 = runOnce(*sc, sd, true);
            S->detChecks++;
            if (r2.schedHash != r.schedHash || r2.histHash != r.histHash || r2.status != r.status || r2.steps != r.steps) S->detMismatch++;
            else if (!r2.overflow) {
              setReplay(r2.dev, r2.faults);
              Result r3 = runOnce(*sc, sd, false);
              setGenerate();
              S->replayChecks++;
              if (r3.schedHash != r.schedHash || r3.histHash != r.histHash || r3.status != r.status) S->replayMismatch++;
            }
            if (S->detMismatch + S->replayMismatch == 1 && !S->firstErr[0]) snprintf(S->firstErr, sizeof S->firstErr, "determinism mismatch in run %lu scenario %s", (unsigned long)i, sc->name);
          }
        } else if (r.status == kViolation) {
          S->violations++;
          Case c;
          c.scenario = sc->name;
          c.seed = sd;
          c.msg = r.msg;
          c.schedHash = r.schedHash;
          c.histHash = r.histHash;
          bool isKnown = false;
          for (auto& k : knownCls) isKnown |= cls(r.msg) == k;
          if (isKnown) continue;
          if (getenv("VRSSIM_LISTALL")) { printf("run %lu %s: %.300s\n", (unsigned long)i, sc->name, r.msg.c_str()); fflush(stdout); continue; }
          if (G->found) continue;
          bool good = minimise(*sc, c, minBudget);
          setMask({});
          setGenerate();
          if (!good) {
            S->unreproduced++;
            snprintf(S->firstErr, sizeof S->firstErr, "violation not reproduced: run %lu scenario %s: %.1500s", (unsigned long)i, sc->name, r.msg.c_str());
            continue;
          }
          if (!__sync_bool_compare_and_swap(&G->found, 0, w + 1)) break;
          writeCase(caseBase + ".tmp", c, prop, thorough);
          G->stop = 1;
          break;
        } else if (r.status == kInconclusive) {
          S->inconclusive++;
          if (!S->firstErr[0]) snprintf(S->firstErr, sizeof S->firstErr, "inconclusive: run %lu scenario %s: %.500s", (unsigned long)i, sc->name, r.msg.c_str());
        } else {
          S->harnessErrors++;
          snprintf(S->firstErr, sizeof S->firstErr, "harness error: run %lu scenario %s: %.1500s", (unsigned long)i, sc->name, r.msg.c_str());
          if (S->harnessErrors > 20) break;
        }
      }
      if (ho) fclose(ho);
      _exit(0);
    }
    pids.push_back(pid);
  }
  for (auto p : pids) { int s; while (waitpid(p, &s, 0) < 0 && errno == EINTR) {} }
  double wall = wallNow() - t0;

  static Stats T;
  std::vector<uint64_t> hashes;
  static uint8_t cov[kCov];
  std::map<std::string, uint64_t> probes;
  std::vector<std::string> samples;
  std::string err;
  for (int w = 0; w < workers; w++) {
    Stats* S = st[w];
    T.runs += S->runs; T.ok += S->ok; T.violations += S->violations; T.inconclusive += S->inconclusive; T.harnessErrors += S->harnessErrors;
    T.unreproduced += S->unreproduced; T.crashLives += S->crashLives; T.nontrivial += S->nontrivial; T.steps += S->steps; T.blocks += S->blocks;
    T.switches += S->switches; T.ioOps += S->ioOps; T.simNs += S->simNs; T.seam += S->seam; T.threads += S->threads; T.ops += S->ops;
    T.preemptRuns += S->preemptRuns; T.faultRuns += S->faultRuns;
    T.detChecks += S->detChecks; T.detMismatch += S->detMismatch; T.replayChecks += S->replayChecks; T.replayMismatch += S->replayMismatch;
    for (int k = 0; k < fKindCount; k++) T.faultCount[k] += S->faultCount[k];
    for (int k = 0; k < 64; k++) T.scen[k] += S->scen[k];
    hashes.insert(hashes.end(), S->hashes, S->hashes + S->nHashes);
    for (size_t k = 0; k < kCov; k++) cov[k] |= shs[w]->cov[k];
    for (auto& p : shs[w]->probes) if (p.name[0]) probes[p.name] += p.count;
    if (S->firstErr[0]) err += std::string(S->firstErr) + "\n";
    for (int k = 0; k < S->nSamples && samples.size() < 4; k++) if (k == 0 || w == workers - 1) samples.push_back(S->samples[k]);
  }
  std::sort(hashes.begin(), hashes.end());
  uint64_t distinct = std::unique(hashes.begin(), hashes.end()) - hashes.begin();
  uint64_t covBits = 0;
  for (size_t k = 0; k < kCov; k++) covBits += cov[k];

  int rc = 0;
  std::string replayPath;
  if (G->found) {
    replayPath = caseBase + ".replay";
    rename((caseBase + ".tmp").c_str(), replayPath.c_str());
    // gate 3: a fresh process replaying the file fails the same way
    std::string log = caseBase + ".verify.log";
    int ok = 0;
    for (int attempt = 0; attempt < 2 && !ok; attempt++) {
      pid_t p = fork();
      if (p == 0) {
        int fd = (int)syscall(SYS_openat, AT_FDCWD, log.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
        dup2(fd, 1);
        dup2(fd, 2);
        unsetenv("VRSSIM_NOASLR");
        execl("/proc/self/exe", "vrssim", "--replay", replayPath.c_str(), (char*)nullptr);
        _exit(9);
      }
      int s = 0;
      while (waitpid(p, &s, 0) < 0 && errno == EINTR) {}
      int code = WIFEXITED(s) ? WEXITSTATUS(s) : -1;
      if (code == 1) ok = 2;
      else if (code == 5) ok = 1; // same violation, slightly different trace (addresses)
      else err += "fresh-process replay returned " + std::to_string(code) + "\n";
    }
    if (ok) {
      std::ifstream in(replayPath);
      std::string line;
      bool on = false;
      int n = 0;
      while (std::getline(in, line) && n < 60) { if (on) { printf("%s\n", line.substr(0, 400).c_str()); n++; } if (line == "text") on = true; }
      printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replayPath.c_str());
      rc = 1;
    } else rc = 2;
  } else if (T.unreproduced) rc = 2;
  else if (T.harnessErrors) rc = 2;
  else if (T.runs == 0 || T.ok * 2 < T.runs) rc = 2;
  printf("%s tier=%s seed=%lu: %lu runs in %.1f s (%lu ok, %lu violating, %lu inconclusive, %lu harness errors), %lu distinct, %lu switches, %lu steps, %.1f s simulated, %lu blocks covered\n",
         prop.c_str(), tier.c_str(), (unsigned long)seed, (unsigned long)T.runs, wall, (unsigned long)T.ok, (unsigned long)T.violations, (unsigned long)T.inconclusive,
         (unsigned long)T.harnessErrors, (unsigned long)distinct, (unsigned long)T.switches, (unsigned long)T.steps, T.simNs * 1e-9, (unsigned long)covBits);
  printf("determinism: %lu same-seed repeats (%lu mismatches), %lu choice replays (%lu mismatches)\n", (unsigned long)T.detChecks, (unsigned long)T.detMismatch,
         (unsigned long)T.replayChecks, (unsigned long)T.replayMismatch);
  if (getenv("VRSSIM_PROBES")) {
    for (auto& p : probes) printf("  probe %-48s %lu\n", p.first.c_str(), (unsigned long)p.second);
    for (int k = 1; k < fKindCount; k++) if (T.faultCount[k]) printf("  fault %-48s %lu\n", kFaultNames[k], (unsigned long)T.faultCount[k]);
  }
  if (!err.empty()) printf("notes:\n%s", err.c_str());

  if (!evidence.empty()) {
    std::ofstream o(evidence);
    double hours = wall / 3600;
    o << "{\n \"property\": \"" << prop << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"" << level << "\",\n";
    o << " \"wall_s\": " << wall << ",\n \"violations\": " << (rc == 1 ? 1 : 0) << ",\n \"coverage\": {\n";
    o << "  \"evaluations\": " << T.runs << ",\n  \"distinct_nontrivial\": " << distinct << ",\n";
    o << "  \"rule\": \"one case = one simulated run from one seed (workload, configuration, schedule and faults all drawn from it); non-trivial = the workload itself marked progress (the code under test did the operations the property is about); distinct = different hash over (every context switch with its step number, the observed history, the injected faults)\",\n";
    o << "  \"runs_per_hour\": " << (uint64_t)(T.runs / std::max(hours, 1e-9)) << ",\n  \"seeds_per_hour\": " << (uint64_t)(T.runs / std::max(hours, 1e-9)) << ",\n";
    o << "  \"simulated_seconds\": " << T.simNs * 1e-9 << ",\n  \"scheduler_steps\": " << T.steps << ",\n  \"instrumented_blocks_executed\": " << T.blocks << ",\n  \"context_switches\": " << T.switches << ",\n";
    o << "  \"simulated_threads\": " << T.threads << ",\n  \"seam_calls\": " << T.seam << ",\n  \"io_operations\": " << T.ioOps << ",\n  \"workload_operations\": " << T.ops << ",\n";
    o << "  \"process_crashes_and_restarts\": " << T.crashLives << ",\n  \"runs_with_faults\": " << T.faultRuns << ",\n  \"runs_with_mid_code_preemption\": " << T.preemptRuns << ",\n  \"distinct_code_blocks_reached\": " << covBits << ",\n";
    o << "  \"inconclusive_runs\": " << T.inconclusive << ",\n  \"determinism_repeats\": " << T.detChecks << ",\n  \"determinism_mismatches\": " << T.detMismatch << ",\n  \"choice_replays\": " << T.replayChecks << ",\n  \"choice_replay_mismatches\": " << T.replayMismatch << ",\n";
    o << "  \"faults_injected\": {";
    bool first = true;
    for (int k = 1; k < fKindCount; k++) if (T.faultCount[k]) { o << (first ? "" : ", ") << "\"" << kFaultNames[k] << "\": " << T.faultCount[k]; first = false; }
    o << "},\n  \"scenarios\": {";
    for (size_t k = 0; k < mine.size() && k < 64; k++) o << (k ? ", " : "") << "\"" << mine[k]->name << "\": " << T.scen[k];
    o << "},\n  \"probes\": {";
    first = true;
    for (auto& p : probes) { o << (first ? "" : ", ") << "\"" << jesc(p.first) << "\": " << p.second; first = false; }
    o << "},\n  \"real_components\": [\"all of vrs/, vrs/os, vrs/helpers, vrs/utils (except the pixel-format conversions), tools/vrs/VrsCommand.cpp, compiled from /repo with " << (gRaceMode ? "-fsanitize=thread (its accesses are followed by this check's own happens-before detector, sim/race/tsanrt.cc)" : "-fsanitize=address") << " and trace-pc\", \"glibc stdio buffering, lz4, zstd, xxhash, fmt, libstdc++ std::thread/mutex/filesystem\"],\n";
    o << "  \"stubbed_components\": [\"file system, POSIX AIO, clocks, sleeps, getrandom (simulated under libc's symbols)\", \"thread scheduling, mutexes, condition variables, semaphores, rwlocks (decided by the seeded scheduler)\", \"Ocean pixel conversions (not available here)\"],\n";
    o << "  \"samples\": [";
    for (size_t k = 0; k < samples.size(); k++) o << (k ? ",\n   " : "\n   ") << "\"" << jesc(samples[k]) << "\"";
    if (samples.empty()) o << "\"none completed\"";
    o << "\n  ]\n },\n";
    o << " \"assumptions\": [\"a context switch can happen at every instrumented basic block and at every intercepted libc call; memory is sequentially consistent\", \"a crash kills the process: data given to the OS survives, buffered data does not\", \"the search samples schedules and faults, it does not enumerate them\"]\n}\n";
  }
  return rc;
}
