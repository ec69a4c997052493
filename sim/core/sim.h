// Deterministic simulator core: one token, one running thread, one seeded source of choices.
// Everything here is used only by the harness; VRS code reaches it through interposed libc symbols.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace sim {

// ---------- PRNG ----------
struct Rng {
  uint64_t s[2];
  explicit Rng(uint64_t seed = 1) { reseed(seed); }
  static uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  void reseed(uint64_t seed) { s[0] = mix(seed); s[1] = mix(s[0] ^ 0xabcdef12345ull); if (!s[0] && !s[1]) s[0] = 1; }
  uint64_t next() {
    uint64_t a = s[0], b = s[1], r = a + b;
    s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return r;
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// ---------- shared result block (child -> worker) ----------
enum Status : int { kRunning = 0, kOk = 1, kViolation = 2, kCrashPoint = 3, kHarnessError = 4, kInconclusive = 5 };

enum FaultKind : int {
  fNone = 0, fWriteEio, fWriteEnospc, fDiskFull, fShortWrite, fTornCrash, fReadEio, fShortRead, fOpenFail, fCloseEio,
  fTruncFail, fRenameFail, fUnlinkFail, fAioSubmit, fAioError, fAioShort, fSlowIo, fMkdirFail, fCrash, fSpuriousWake,
  fClockJump, fTruncateFile, fBitFlip, fGarbage, fEintr, fStatFail, fSeekFail, fReorderAio, fFlushEio, fPreempt, fCustom,
  fKindCount
};
extern const char* const kFaultNames[fKindCount];

struct Deviation { uint64_t step; int32_t tid; int32_t pad; };
struct FaultRec { uint32_t io; int32_t kind; int64_t param; };

constexpr size_t kMaxDev = 400000;
constexpr size_t kMaxFault = 4096;
constexpr size_t kCov = 1 << 16;
constexpr size_t kFsBlob = 48u << 20;
constexpr size_t kMaxOps = 4096;
constexpr int kLifeShift = 40; // step numbers of life n start at n << 40

struct Shared {
  // input
  uint64_t seed;
  int replay;           // 1: follow dev[]/faults[] instead of generating
  int life;             // 0 first process, 1.. after crash
  uint32_t inDevCount, inFaultCount;
  uint8_t opOff[kMaxOps]; // masked workload ops
  int verbose;
  int thorough;
  // output
  int outBegin;
  int status;
  char msg[8192];
  char log[16384];      // human readable trace, truncated
  uint32_t logLen;
  uint64_t steps, switches, blocks, ioOps, simNs, seamCalls;
  uint64_t schedHash, histHash;
  uint32_t nthreads;
  uint64_t faultCount[fKindCount];
  uint64_t counters[64];
  uint32_t nOps;
  uint32_t outDevCount, outFaultCount;
  int devOverflow;
  uint64_t fsBlobLen;
  uint64_t userBlobLen;
  int nontrivial;
  int outEnd;
  // accumulated over all runs of one worker
  struct Probe { char name[48]; uint64_t count; } probes[160];
  Deviation dev[kMaxDev];       // output when generating
  Deviation inDev[kMaxDev];
  FaultRec faults[kMaxFault];
  FaultRec inFaults[kMaxFault];
  uint8_t cov[kCov];
  uint8_t userBlob[4 << 20];
  uint8_t fsBlob[kFsBlob];
};
extern Shared* sh;

// ---------- scheduler ----------
enum SchedPolicy : int { kRandomWalk = 0, kPct = 1, kRunToBlock = 2, kStarve = 3, kRoundRobin = 4, kPolicyCount = 5 };
struct SchedConfig {
  int policy = kRandomWalk;
  double pSync = 0.3;          // switch probability at a seam call
  uint64_t meanBlocks = 0;     // mean basic blocks between preemptions, 0: only at seam calls
  int pctDepth = 3;
  uint64_t pctLen = 200000;
  int starveTid = 1;
  double pSpurious = 0.0;
  uint64_t maxSteps = 40000000;
  int64_t maxSimNs = 3600ll * 1000000000ll * 24;
};
void startSim(const SchedConfig& cfg, uint64_t seed); // calling thread becomes sim thread 0
void stopSim();                                        // requires all other threads finished
bool active();
// a scenario hands something to its other threads through its own state (seen by the race detector)
void handOver(void* what);
void takeOver(void* what);
bool inSim();                  // calling thread is scheduled by the simulator
int currentTid();
const char* threadWait(int tid); // what the thread is blocked on, "" if it can run, "done" when over
int liveThreads();             // sim threads not finished, excluding the caller
int64_t nowNs();               // simulated monotonic
void advance(int64_t ns);      // simulated time passes (cpu work)
void sleepNs(int64_t ns);      // block in simulated time
void preemptPoint(const char* what, uint64_t info = 0);
void noPreempt(int delta);     // >0 disable, <0 enable
uint64_t stepCount();
void setCollectBlocks(bool on);
void setMaxSteps(uint64_t n);
void clockJump(int64_t ns);    // CLOCK_REALTIME only
Rng& schedRng();
extern thread_local int tlNoTrace;

// A blocking primitive for seam code: wait until signalled.
void blockOn(void* obj, const char* what);
void wakeAll(void* obj);

// ---------- failure reporting ----------
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void harnessError(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void finish(int status);
extern bool gTolerateHugeAlloc; // a run which asks for too much memory ends there, without a violation
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void hist(uint64_t v); // mix into the history hash
void hist(const std::string& s);
void count(int idx, uint64_t n = 1); // sh->counters
void probe(const char* name, uint64_t n = 1); // "this condition was reached" counters, reported in the evidence
void nontrivial();

// ---------- faults ----------
struct FaultConfig {
  std::map<int, double> prob;   // per eligible I/O op
  std::map<int, int> limit;     // max count per kind (default: unlimited)
  int64_t diskCapacity = -1;    // bytes; -1 unlimited
  uint64_t fromIo = 0, toIo = ~0ull;
  int64_t crashAtIo = -1;       // process crash at that I/O op
  bool tornCrash = false;
  int64_t slowNs = 0;
  std::function<bool(const std::string&)> pathFilter;
};
FaultConfig& faultCfg();
void initFaults(uint64_t seed);
void armFaults(bool on);
bool faultsArmed();
uint64_t ioCount();
uint64_t faultsInjected();      // errors injected so far that could damage data or return an error
uint64_t faultsInjectedKind(int kind);
Rng& faultRng();
// asks whether fault `kind` (one of `kinds`) happens at this I/O op
struct FaultDecision { int kind = fNone; int64_t param = 0; };
FaultDecision decideFault(const std::vector<int>& kinds, const std::string& path, uint64_t size);
void recordFault(int kind, int64_t param = 0); // for harness-made faults
void maybeCrash(const std::string& path, const char* op, std::function<void()> torn);

// ---------- simulated file system ----------
namespace fs {
extern const char* const kRoot; // "/sim"
bool exists(const std::string& path);
std::string content(const std::string& path);
void setContent(const std::string& path, const std::string& data);
std::vector<std::string> list();     // all files
std::vector<std::string> listDir(const std::string& dir);
void mkdirs(const std::string& path);
void removeAll();
void erase(const std::string& path);
uint64_t totalBytes();
int openHandles();
bool serialize();                     // to sh->fsBlob
void deserialize();
void setLatency(int64_t minNs, int64_t maxNs);
void setWriteLatency(int64_t minNs, int64_t maxNs);
void setAioLatency(int64_t minNs, int64_t maxNs);
void setStdioBuf(size_t n);           // 0: default
struct WriteEvent { std::string path; uint64_t off; uint64_t len; };
void onWrite(std::function<void(const WriteEvent&)> fn);
} // namespace fs
} // namespace sim
