// Happens-before race detector for code compiled with -fsanitize=thread, driven by the simulator's scheduler.
// Only one simulated thread runs at a time, so nothing here needs locks. Threads outside the simulation are ignored.
#include "../core/intern.h"
#include "../core/sim.h"
#include <cxxabi.h>
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <string>
#include <vector>

extern "C" void simHarnessBegin();
extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);
extern "C" void __libc_free(void*);

namespace sim {
namespace {
using Clock = std::vector<uint32_t>;
struct Slot {
  uint32_t clock;
  uint16_t tid;
  uint8_t mask; // bytes of the 8 accessed; 0 = empty
  uint8_t flags;
  uint32_t pc, caller;
};
enum { kWrite = 1, kAtomic = 2, kFree = 4 };
struct Cell { Slot s[4]; };
struct Page { uint64_t no; Cell* cells; };
constexpr size_t kDir = 1 << 17;
constexpr int kCells = 512; // of 8 bytes: 4 KB
Page* gDir = nullptr;
uint64_t gLastNo = ~0ull;
Cell* gLastCells = nullptr;

struct TS {
  Clock vc, relFence, acqPending;
  bool hasRelFence = false;
  uint32_t* stack = nullptr;
  uint32_t depth = 0;
};
constexpr uint32_t kStack = 1024;
std::vector<TS*>* gTs = nullptr;
std::map<uintptr_t, Clock>* gSync = nullptr;
bool gInRt = false;
bool gAll = false;

struct In {
  bool was = gInRt;
  In() { gInRt = true; }
  ~In() { gInRt = was; }
};

TS& ts(int tid) {
  if (!gTs) {
    gTs = new std::vector<TS*>;
    gSync = new std::map<uintptr_t, Clock>;
    gDir = (Page*)mmap(nullptr, kDir * sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    gAll = getenv("VRSSIM_RACEALL") != nullptr;
  }
  while ((int)gTs->size() <= tid) {
    TS* t = new TS;
    t->vc.resize(gTs->size() + 1);
    t->vc[gTs->size()] = 1;
    t->stack = (uint32_t*)__libc_calloc(kStack, sizeof(uint32_t));
    gTs->push_back(t);
  }
  return *(*gTs)[(size_t)tid];
}
inline void join(Clock& a, const Clock& b) {
  if (a.size() < b.size()) a.resize(b.size());
  for (size_t i = 0; i < b.size(); i++)
    if (b[i] > a[i]) a[i] = b[i];
}
inline Cell* cellsOf(uintptr_t addr, bool make) {
  uint64_t no = addr >> 12;
  if (no == gLastNo) return gLastCells;
  size_t i = (no * 0x9e3779b97f4a7c15ull >> 40) & (kDir - 1);
  for (size_t n = 0; n < kDir; n++, i = (i + 1) & (kDir - 1)) {
    if (gDir[i].cells && gDir[i].no == no) break;
    if (!gDir[i].cells) {
      if (!make) return nullptr;
      if (n > 4096) return nullptr; // table crowded: stop tracking new pages
      gDir[i].no = no;
      gDir[i].cells = (Cell*)mmap(nullptr, kCells * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      break;
    }
  }
  gLastNo = no;
  gLastCells = gDir[i].cells;
  return gLastCells;
}
void clearRange(uintptr_t a, size_t n) {
  if (!gDir || !n) return;
  uintptr_t e = a + n;
  if (n > (64u << 20)) e = a + (64u << 20);
  while (a < e) {
    uintptr_t pe = std::min<uintptr_t>((a | 4095) + 1, e);
    Cell* c = cellsOf(a, false);
    if (c) memset(&c[(a & 4095) >> 3], 0, (((pe - 1) >> 3) - (a >> 3) + 1) * sizeof(Cell));
    a = pe;
  }
}

// ---- naming ----
struct Sym { uintptr_t a; std::string n; };
std::vector<Sym>* gSyms = nullptr;
void loadSyms() {
  gSyms = new std::vector<Sym>;
  int fd = (int)syscall(SYS_openat, AT_FDCWD, "/proc/self/exe", O_RDONLY);
  if (fd < 0) return;
  off_t sz = syscall(SYS_lseek, fd, 0, SEEK_END);
  char* m = (char*)mmap(nullptr, (size_t)sz, PROT_READ, MAP_PRIVATE, fd, 0);
  syscall(SYS_close, fd);
  if (m == MAP_FAILED) return;
  auto* eh = (Elf64_Ehdr*)m;
  auto* sec = (Elf64_Shdr*)(m + eh->e_shoff);
  for (int i = 0; i < eh->e_shnum; i++)
    if (sec[i].sh_type == SHT_SYMTAB) {
      auto* s = (Elf64_Sym*)(m + sec[i].sh_offset);
      const char* str = m + sec[sec[i].sh_link].sh_offset;
      for (size_t k = 0; k < sec[i].sh_size / sizeof(Elf64_Sym); k++)
        if ((s[k].st_info & 15) == STT_FUNC && s[k].st_value) gSyms->push_back({s[k].st_value, str + s[k].st_name});
    }
  std::sort(gSyms->begin(), gSyms->end(), [](const Sym& a, const Sym& b) { return a.a < b.a; });
}
std::string nameOf(uintptr_t pc) {
  if (!gSyms) loadSyms();
  auto it = std::upper_bound(gSyms->begin(), gSyms->end(), pc, [](uintptr_t p, const Sym& s) { return p < s.a; });
  if (it == gSyms->begin()) return "?";
  --it;
  int st = 0;
  char* d = abi::__cxa_demangle(it->n.c_str(), nullptr, nullptr, &st);
  std::string r = st == 0 && d ? d : it->n;
  // without parameters and template arguments
  std::string o;
  int depth = 0;
  size_t lambda = r.find("{lambda");
  if (lambda != std::string::npos && lambda > 2) r = r.substr(0, lambda - 2);
  for (size_t k = 0; k < r.size(); k++) {
    if (r.compare(k, 21, "(anonymous namespace)") == 0) { k += 20; if (k + 2 < r.size()) k += 2; continue; }
    if (r[k] == '<') depth++;
    else if (r[k] == '>' ) { if (depth) depth--; }
    else if (r[k] == '(' && depth == 0) break;
    else if (depth == 0) o += r[k];
  }
  size_t sp = o.rfind(' ');
  if (sp != std::string::npos && o.find("operator") == std::string::npos) o = o.substr(sp + 1);
  return o;
}
std::string fullName(uintptr_t pc, uintptr_t caller) {
  std::string n = nameOf(pc);
  bool foreign = n.compare(0, 5, "std::") == 0 || n.compare(0, 9, "__gnu_cxx") == 0 || pc >= (uintptr_t)&simHarnessBegin;
  if (foreign && caller) {
    std::string c = nameOf(caller);
    if (c.compare(0, 5, "vrs::") == 0) return c;
  }
  return n;
}
std::string addrName(uintptr_t a) {
  char b[40];
  snprintf(b, sizeof b, "0x%lx", (unsigned long)a);
  return b;
}
void report(uintptr_t addr, int tid, int flags, uintptr_t pc, uintptr_t caller, const Slot& o) {
  std::string n1 = fullName(o.pc, o.caller), n2 = fullName(pc, caller);
  auto kind = [](int f) { return std::string(f & kFree ? "frees" : f & kAtomic ? f & kWrite ? "atomically writes" : "atomically reads" : f & kWrite ? "writes" : "reads"); };
  std::string a = n1, b = n2;
  if (b < a) std::swap(a, b);
  for (auto* s : {&a, &b}) for (auto& c : *s) if (c == ':') c = '.';
  std::string stack;
  TS& t = ts(tid);
  for (uint32_t k = 0; k < 8 && k < t.depth && t.depth - 1 - k < kStack; k++) stack += " " + addrName(t.stack[t.depth - 1 - k]);
  std::string where;
  if (addr >= (uintptr_t)0x400000 && addr < (uintptr_t)0x40000000) where = " (static)";
  std::string msg = "data race between " + a + " and " + b + ": memory " + "at ..." + addrName(addr & 0xfff) + where + ": thread " + std::to_string(o.tid) + " " + kind(o.flags) + " it in " + n1 +
      " [" + addrName(o.pc) + " " + addrName(o.caller) + "], thread " + std::to_string(tid) + " " + kind(flags) + " it in " + n2 + " [" + addrName(pc) + stack + "] without synchronisation in between";
  if (gAll) {
    dprintf(2, "%s\n", msg.c_str());
    return;
  }
  gRaceFound = true;
  fail("%s", msg.c_str());
}

inline void touchCell(Cell* cell, uintptr_t addr, uint8_t mask, int flags, uintptr_t pc, int tid, TS& t) {
  uint32_t clk = t.vc[(size_t)tid];
  Slot* put = nullptr;
  Slot* empty = nullptr;
  Slot* old = nullptr;
  for (Slot& s : cell->s) {
    if (!s.mask) { if (!empty) empty = &s; continue; }
    if (s.tid == tid) {
      if (s.mask == mask && ((s.flags ^ flags) & kAtomic) == 0) {
        if (s.clock == clk && (s.flags & kWrite) >= (flags & kWrite)) put = &s, old = &s;
        else if ((flags & kWrite) >= (s.flags & kWrite)) put = &s;
      }
      continue;
    }
    bool hb = s.tid < t.vc.size() && s.clock <= t.vc[s.tid];
    if (hb) {
      if (!put && (s.mask & ~mask) == 0 && ((flags & kWrite) || !(s.flags & kWrite)) && !(flags & kAtomic && !(s.flags & kAtomic))) put = &s;
      continue;
    }
    if (!(s.mask & mask)) continue;
    if (!((s.flags | flags) & kWrite)) continue;
    if (s.flags & flags & kAtomic) continue;
    uintptr_t caller = t.depth && t.depth <= kStack ? t.stack[t.depth - 1] : 0;
    report(addr, tid, flags, pc, caller, s);
    return; // (list-all mode)
  }
  if (old) return;
  if (!put) put = empty;
  if (!put) {
    static uint32_t rr = 0;
    put = &cell->s[rr++ & 3];
  }
  uint32_t caller = t.depth && t.depth <= kStack ? t.stack[t.depth - 1] : 0;
  *put = Slot{clk, (uint16_t)tid, mask, (uint8_t)flags, (uint32_t)pc, caller};
}
void access(uintptr_t addr, size_t n, int flags, uintptr_t pc, bool always = false) {
  int tid = raceTid();
  if (tid < 0 || gInRt || n == 0) return;
  if (!always && pc >= (uintptr_t)&simHarnessBegin) return;
  In in;
  TS& t = ts(tid);
  uintptr_t e = addr + n;
  while (addr < e) {
    uintptr_t ce = std::min<uintptr_t>((addr | 7) + 1, e);
    Cell* c = cellsOf(addr, true);
    if (c) {
      uint8_t mask = (uint8_t)(((1u << (ce - addr)) - 1) << (addr & 7));
      touchCell(&c[(addr & 4095) >> 3], addr, mask, flags, pc, tid, t);
    }
    addr = ce;
  }
}
int syncTid() { return gInRt ? -1 : inSim() ? currentTid() : -1; }
void acquire(uintptr_t p) {
  int tid = syncTid();
  if (tid < 0) return;
  In in;
  TS& t = ts(tid);
  auto it = gSync->find(p);
  if (it != gSync->end()) join(t.vc, it->second);
}
void release(uintptr_t p, bool replace = false) {
  int tid = syncTid();
  if (tid < 0) return;
  In in;
  TS& t = ts(tid);
  Clock& c = (*gSync)[p];
  if (replace) c = t.vc;
  else join(c, t.vc);
  t.vc[(size_t)tid]++;
}
void hookAcquire(void* p) { acquire((uintptr_t)p); }
void hookRelease(void* p) { release((uintptr_t)p); }
void hookCreate(int child) {
  int tid = syncTid();
  if (tid < 0) return;
  In in;
  ts(child);
  TS& c = ts(child);
  join(c.vc, ts(tid).vc);
  ts(tid).vc[(size_t)tid]++;
}
void hookStart() {
  int tid = syncTid();
  if (tid < 0) return;
  In in;
  ts(tid);
  pthread_attr_t a;
  if (pthread_getattr_np(pthread_self(), &a) == 0) {
    void* lo;
    size_t n;
    pthread_attr_getstack(&a, &lo, &n);
    clearRange((uintptr_t)lo, n);
    gSync->erase(gSync->lower_bound((uintptr_t)lo), gSync->lower_bound((uintptr_t)lo + n));
    pthread_attr_destroy(&a);
  }
}
void hookJoin(int child) {
  int tid = syncTid();
  if (tid < 0) return;
  In in;
  ts(child);
  join(ts(tid).vc, ts(child).vc);
}
void hookRange(const void* p, size_t n, bool write) {
  access((uintptr_t)p, n, write ? kWrite : 0, (uintptr_t)__builtin_return_address(0), true);
}
struct Install {
  Install() {
    gRaceAcquire = hookAcquire;
    gRaceRelease = hookRelease;
    gRaceCreate = hookCreate;
    gRaceStart = hookStart;
    gRaceJoin = hookJoin;
    gRaceRange = hookRange;
    gRaceMode = true;
  }
} install;

void onMalloc(void* p, size_t n) {
  if (!p || gInRt || !inSim()) return;
  In in;
  clearRange((uintptr_t)p, n);
}
void onFree(void* p, uintptr_t pc) {
  if (!p || gInRt || !inSim()) return;
  size_t n = malloc_usable_size(p);
  // freeing is a write to all of it, but a sample of it is enough for blocks nobody copies around in pieces
  access((uintptr_t)p, std::min<size_t>(n, 4096), kWrite | kFree, pc, true);
  In in;
  ts(currentTid());
  clearRange((uintptr_t)p, n);
  gSync->erase(gSync->lower_bound((uintptr_t)p), gSync->lower_bound((uintptr_t)p + n));
}
} // namespace
} // namespace sim
using namespace sim;

#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) {
  int tid = inSim() && !gInRt ? currentTid() : -1;
  if (tid < 0) return;
  TS* t;
  if (gTs && tid < (int)gTs->size()) t = (*gTs)[(size_t)tid];
  else { In in; t = &ts(tid); }
  if (t->depth < kStack) t->stack[t->depth] = (uint32_t)(uintptr_t)pc;
  t->depth++;
}
void __tsan_func_exit() {
  int tid = inSim() && !gInRt ? currentTid() : -1;
  if (tid < 0 || !gTs || tid >= (int)gTs->size()) return;
  TS* t = (*gTs)[(size_t)tid];
  if (t->depth) t->depth--;
}
#define RW_(n)                                                                                   \
  void __tsan_read##n(void* a) { access((uintptr_t)a, n, 0, PC); }                               \
  void __tsan_write##n(void* a) { access((uintptr_t)a, n, kWrite, PC); }                         \
  void __tsan_unaligned_read##n(void* a) { access((uintptr_t)a, n, 0, PC); }                     \
  void __tsan_unaligned_write##n(void* a) { access((uintptr_t)a, n, kWrite, PC); }               \
  void __tsan_volatile_read##n(void* a) { access((uintptr_t)a, n, 0, PC); }                      \
  void __tsan_volatile_write##n(void* a) { access((uintptr_t)a, n, kWrite, PC); }
RW_(1)
RW_(2)
RW_(4)
RW_(8)
RW_(16)
void __tsan_read_range(void* a, size_t n) { access((uintptr_t)a, n, 0, PC); }
void __tsan_write_range(void* a, size_t n) { access((uintptr_t)a, n, kWrite, PC); }
void __tsan_vptr_read(void** a) { access((uintptr_t)a, 8, 0, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) access((uintptr_t)a, 8, kWrite, PC); }

enum { moRelaxed, moConsume, moAcquire, moRelease, moAcqRel, moSeqCst };
static bool acq(int mo) { return mo == moConsume || mo == moAcquire || mo == moAcqRel || mo == moSeqCst; }
static bool rel(int mo) { return mo == moRelease || mo == moAcqRel || mo == moSeqCst; }
static void after(uintptr_t a, int mo, bool reads, bool writes, bool rmw) {
  int tid = syncTid();
  if (tid < 0) return;
  if (reads) {
    if (acq(mo)) acquire(a);
    else {
      In in;
      TS& t = ts(tid);
      auto it = gSync->find(a);
      if (it != gSync->end()) join(t.acqPending, it->second);
    }
  }
  if (writes) {
    if (rel(mo)) release(a, !rmw);
    else {
      In in;
      TS& t = ts(tid);
      if (t.hasRelFence) join((*gSync)[a], t.relFence);
    }
  }
}
void __tsan_atomic_thread_fence(int mo) {
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
  int tid = syncTid();
  if (tid < 0) return;
  In in;
  TS& t = ts(tid);
  if (acq(mo)) join(t.vc, t.acqPending);
  if (rel(mo)) { t.relFence = t.vc; t.hasRelFence = true; t.vc[(size_t)tid]++; }
}
void __tsan_atomic_signal_fence(int) {}
#define AT(bits, T)                                                                                                            \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) {                                                                  \
    access((uintptr_t)a, sizeof(T), kAtomic, PC, true);                                                                        \
    T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                                \
    after((uintptr_t)a, mo, true, false, false);                                                                               \
    return v;                                                                                                                  \
  }                                                                                                                            \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) {                                                               \
    access((uintptr_t)a, sizeof(T), kAtomic | kWrite, PC, true);                                                               \
    after((uintptr_t)a, mo, false, true, false);                                                                               \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                                  \
  }                                                                                                                            \
  AT_RMW(bits, T, exchange, __atomic_exchange_n)                                                                               \
  AT_RMW(bits, T, fetch_add, __atomic_fetch_add)                                                                               \
  AT_RMW(bits, T, fetch_sub, __atomic_fetch_sub)                                                                               \
  AT_RMW(bits, T, fetch_and, __atomic_fetch_and)                                                                               \
  AT_RMW(bits, T, fetch_or, __atomic_fetch_or)                                                                                 \
  AT_RMW(bits, T, fetch_xor, __atomic_fetch_xor)                                                                               \
  AT_RMW(bits, T, fetch_nand, __atomic_fetch_nand)                                                                             \
  static inline int cas##bits(volatile T* a, T* c, T v, int mo, int fmo, uintptr_t pc) {                                        \
    access((uintptr_t)a, sizeof(T), kAtomic | kWrite, pc, true);                                                               \
    bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                  \
    after((uintptr_t)a, ok ? mo : fmo, true, ok, true);                                                                        \
    return ok;                                                                                                                 \
  }                                                                                                                            \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { return cas##bits(a, c, v, mo, fmo, PC); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return cas##bits(a, c, v, mo, fmo, PC); }   \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { cas##bits(a, &c, v, mo, fmo, PC); return c; }
#define AT_RMW(bits, T, op, fn)                                             \
  T __tsan_atomic##bits##_##op(volatile T* a, T v, int mo) {                \
    access((uintptr_t)a, sizeof(T), kAtomic | kWrite, PC, true);            \
    T r = fn(a, v, __ATOMIC_SEQ_CST);                                       \
    after((uintptr_t)a, mo, true, true, true);                              \
    return r;                                                               \
  }
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)

// ---- memory ----
void* malloc(size_t n) { void* p = __libc_malloc(n); onMalloc(p, n); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); onMalloc(p, a * b); return p; }
void* memalign(size_t al, size_t n) { void* p = __libc_memalign(al, n); onMalloc(p, n); return p; }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) {
  void* p = memalign(al, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
void free(void* p) { onFree(p, PC); __libc_free(p); }
void* realloc(void* p, size_t n) {
  if (p && n && !gInRt && inSim()) {
    void* q = malloc(n);
    if (!q) return nullptr;
    memcpy(q, p, std::min(n, malloc_usable_size(p)));
    onFree(p, PC);
    __libc_free(p);
    return q;
  }
  return __libc_realloc(p, n);
}
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
size_t __real_fwrite(const void*, size_t, size_t, FILE*);
size_t __real_fread(void*, size_t, size_t, FILE*);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (inSim()) { access((uintptr_t)s, n, 0, PC); access((uintptr_t)d, n, kWrite, PC); }
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (inSim()) { access((uintptr_t)s, n, 0, PC); access((uintptr_t)d, n, kWrite, PC); }
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  if (inSim()) access((uintptr_t)d, n, kWrite, PC);
  return __real_memset(d, c, n);
}
size_t __wrap_fwrite(const void* p, size_t a, size_t b, FILE* f) {
  if (inSim()) access((uintptr_t)p, a * b, 0, PC);
  return __real_fwrite(p, a, b, f);
}
size_t __wrap_fread(void* p, size_t a, size_t b, FILE* f) {
  size_t r = __real_fread(p, a, b, f);
  if (inSim()) access((uintptr_t)p, a * r, kWrite, PC);
  return r;
}
// red-black trees and lists: their nodes are linked by functions inside libstdc++
}
namespace std {
struct _Rb_tree_node_base;
}
extern "C" {
void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, void*, void*, void*);
void* __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void*, void*);
void* __real__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(void*);
void* __real__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(void*);
void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, void* x, void* p, void* h) {
  if (inSim()) { access((uintptr_t)x, 32, kWrite, PC); access((uintptr_t)p, 32, kWrite, PC); access((uintptr_t)h, 32, kWrite, PC); }
  __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(l, x, p, h);
}
void* __wrap__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void* z, void* h) {
  if (inSim()) { access((uintptr_t)z, 32, kWrite, PC); access((uintptr_t)h, 32, kWrite, PC); }
  return __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(z, h);
}
void* __wrap__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(void* x) {
  if (inSim()) access((uintptr_t)x, 32, 0, PC);
  return __real__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(x);
}
void* __wrap__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(void* x) {
  if (inSim()) access((uintptr_t)x, 32, 0, PC);
  return __real__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(x);
}
void __real__ZNSt8__detail15_List_node_base7_M_hookEPS0_(void*, void*);
void __real__ZNSt8__detail15_List_node_base9_M_unhookEv(void*);
void __real__ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(void*, void*, void*);
static void lw(void* n, uintptr_t pc) { access((uintptr_t)n, 16, kWrite, pc); }
void __wrap__ZNSt8__detail15_List_node_base7_M_hookEPS0_(void* self, void* pos) {
  if (inSim()) { lw(self, PC); access((uintptr_t)pos + 8, 8, kWrite, PC); access((uintptr_t)((void**)pos)[1], 8, kWrite, PC); }
  __real__ZNSt8__detail15_List_node_base7_M_hookEPS0_(self, pos);
}
void __wrap__ZNSt8__detail15_List_node_base9_M_unhookEv(void* self) {
  if (inSim()) { access((uintptr_t)self, 16, 0, PC); access((uintptr_t)((void**)self)[0] + 8, 8, kWrite, PC); access((uintptr_t)((void**)self)[1], 8, kWrite, PC); }
  __real__ZNSt8__detail15_List_node_base9_M_unhookEv(self);
}
void __wrap__ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(void* self, void* first, void* last) {
  if (inSim() && self != last) { lw(self, PC); lw(first, PC); lw(last, PC); }
  __real__ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(self, first, last);
}
}
extern "C" void __sanitizer_print_stack_trace() {}
