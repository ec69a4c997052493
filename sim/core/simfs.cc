// In-memory file system behind libc's file calls, with faults and crashes. Paths outside /sim pass through.
#include "sim.h"
#include "intern.h"
#include <aio.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>
#include <memory>
#include <set>

namespace sim {

static FaultConfig* gFault = nullptr;
static bool gArmed = false;
static uint64_t gIo = 0;
static Rng gFaultRng;
static uint32_t gInFault = 0;
FaultConfig& faultCfg() {
  if (!gFault) gFault = new FaultConfig;
  return *gFault;
}
void armFaults(bool on) { gArmed = on; }
bool faultsArmed() { return gArmed; }
uint64_t ioCount() { return gIo; }
Rng& faultRng() { return gFaultRng; }
uint64_t faultsInjectedKind(int k) { return sh->faultCount[k]; }
uint64_t faultsInjected() {
  static const int kinds[] = {fWriteEio, fWriteEnospc, fDiskFull, fTornCrash, fReadEio, fOpenFail, fCloseEio, fTruncFail,
      fRenameFail, fUnlinkFail, fAioSubmit, fAioError, fAioShort, fMkdirFail, fStatFail, fSeekFail, fFlushEio};
  uint64_t n = 0;
  for (int k : kinds) n += sh->faultCount[k];
  return n;
}
// harness-made faults follow from the workload: counted, not part of the replayed decisions
void recordFault(int kind, int64_t) { sh->faultCount[kind]++; }
void initFaults(uint64_t seed) {
  gFaultRng.reseed(seed ^ 0xfa017fa017ull ^ ((uint64_t)sh->life << 48));
  gIo = 0;
  gInFault = 0;
}
static bool has(const std::vector<int>& v, int k) {
  for (int x : v)
    if (x == k) return true;
  return false;
}
FaultDecision decideFault(const std::vector<int>& kinds, const std::string& path, uint64_t size) {
  FaultDecision d;
  uint64_t io = gIo++;
  sh->ioOps = gIo;
  if (!gArmed) return d;
  uint32_t key = (uint32_t)((sh->life << 24) | (io & 0xffffff));
  gQuiet = true; // deciding, which replays don't do, takes no steps
  if (sh->replay) {
    while (gInFault < sh->inFaultCount && sh->inFaults[gInFault].io < key) gInFault++;
    if (gInFault < sh->inFaultCount && sh->inFaults[gInFault].io == key) {
      FaultRec& f = sh->inFaults[gInFault++];
      if (has(kinds, f.kind)) {
        d.kind = f.kind;
        d.param = f.param;
      }
    }
  } else {
    FaultConfig& c = faultCfg();
    if (c.crashAtIo >= 0 && (int64_t)io >= c.crashAtIo && has(kinds, fCrash)) {
      d.kind = fCrash;
      // small writes are torn between fields only
      d.param = c.tornCrash && size > 0 ? (int64_t)gFaultRng.below(size + 1) & (size > 512 ? -1 : -8) : 0;
    } else if (io >= c.fromIo && io < c.toIo && (!c.pathFilter || has(kinds, fSpuriousWake) || c.pathFilter(path))) {
      for (int k : kinds) {
        auto it = c.prob.find(k);
        if (it == c.prob.end() || it->second <= 0) continue;
        auto l = c.limit.find(k);
        if (l != c.limit.end() && l->second <= (int)sh->faultCount[k]) continue;
        if (gFaultRng.chance(it->second)) {
          d.kind = k;
          d.param = (int64_t)(gFaultRng.next() >> 2);
          break;
        }
      }
    }
    if (d.kind != fNone && sh->outFaultCount < kMaxFault) sh->faults[sh->outFaultCount++] = FaultRec{key, d.kind, d.param};
  }
  gQuiet = false;
  if (d.kind != fNone) {
    sh->faultCount[d.kind]++;
    if (d.kind != fSpuriousWake)
      logf("FAULT %s io=%lu path=%s size=%lu param=%ld", kFaultNames[d.kind], (unsigned long)io, path.c_str(), (unsigned long)size, (long)d.param);
  }
  return d;
}

namespace fs {
const char* const kRoot = "/sim";

struct Inode {
  bool dir = false;
  std::string data;
  uint64_t ino = 0;
  int64_t mtime = 0;
};
using InodeP = std::shared_ptr<Inode>;
struct Handle {
  InodeP node;
  std::string path;
  uint64_t pos = 0;
  int flags = 0;
  bool used = false;
  bool wroteFault = false;
  FILE* file = nullptr;
  std::unique_ptr<char[]> buffer; // glibc ignores the size when it is not given the buffer
};
struct DirStream {
  uint32_t magic = 0x51D1A001;
  int fd;
  std::vector<std::pair<std::string, bool>> ents;
  size_t at = 0;
  struct dirent ent;
};
constexpr int kFdBase = 1000000;
static std::map<std::string, InodeP>* gFiles = nullptr;
static std::vector<Handle*>* gHandles = nullptr;
static std::set<void*>* gDirs = nullptr;
static std::map<FILE*, int>* gFileFd = nullptr;
static uint64_t gIno = 1;
static int64_t gLatMin = 0, gLatMax = 0, gWLatMin = 0, gWLatMax = 0, gAioMin = 0, gAioMax = 0;
static size_t gBuf = 0;
static std::function<void(const WriteEvent&)>* gOnWrite = nullptr;

static void init() {
  if (gFiles) return;
  gFiles = new std::map<std::string, InodeP>;
  gHandles = new std::vector<Handle*>;
  gDirs = new std::set<void*>;
  gFileFd = new std::map<FILE*, int>;
  auto d = std::make_shared<Inode>();
  d->dir = true;
  d->ino = gIno++;
  (*gFiles)["/sim"] = d;
}
void setLatency(int64_t a, int64_t b) { gLatMin = a; gLatMax = b; }
void setWriteLatency(int64_t a, int64_t b) { gWLatMin = a; gWLatMax = b; }
void setAioLatency(int64_t a, int64_t b) { gAioMin = a; gAioMax = b; }
void setStdioBuf(size_t n) { gBuf = n; }
void onWrite(std::function<void(const WriteEvent&)> fn) {
  delete gOnWrite;
  gOnWrite = fn ? new std::function<void(const WriteEvent&)>(fn) : nullptr;
}

static bool ours(const char* p) { return p && strncmp(p, "/sim", 4) == 0 && (p[4] == 0 || p[4] == '/'); }
static std::string norm(const char* p) {
  std::vector<std::string> parts;
  std::string cur;
  for (const char* c = p;; c++) {
    if (*c == '/' || *c == 0) {
      if (cur == "..") { if (!parts.empty()) parts.pop_back(); }
      else if (!cur.empty() && cur != ".") parts.push_back(cur);
      cur.clear();
      if (!*c) break;
    } else cur += *c;
  }
  std::string r;
  for (auto& s : parts) r += "/" + s;
  return r.empty() ? "/" : r;
}
static std::string parent(const std::string& p) {
  auto i = p.rfind('/');
  return i == 0 ? "/" : p.substr(0, i);
}
static InodeP find(const std::string& p) {
  init();
  auto it = gFiles->find(p);
  return it == gFiles->end() ? nullptr : it->second;
}
static int newHandle(InodeP n, const std::string& path, int flags) {
  init();
  size_t i = 0;
  while (i < gHandles->size() && (*gHandles)[i]->used) i++;
  if (i == gHandles->size()) gHandles->push_back(new Handle);
  Handle* h = (*gHandles)[i];
  *h = Handle();
  h->used = true;
  h->node = n;
  h->path = path;
  h->flags = flags;
  return kFdBase + (int)i;
}
static Handle* H(int fd) {
  if (fd < kFdBase || !gHandles) return nullptr;
  size_t i = fd - kFdBase;
  if (i >= gHandles->size() || !(*gHandles)[i]->used) return nullptr;
  return (*gHandles)[i];
}
bool exists(const std::string& p) { return find(p) != nullptr; }
std::string content(const std::string& p) { auto n = find(p); return n ? n->data : std::string(); }
void mkdirs(const std::string& p) {
  if (p.size() <= 4) { init(); return; }
  mkdirs(parent(p));
  if (!find(p)) { auto d = std::make_shared<Inode>(); d->dir = true; d->ino = gIno++; (*gFiles)[p] = d; }
}
void setContent(const std::string& p, const std::string& data) {
  mkdirs(parent(p));
  auto n = find(p);
  if (!n) { n = std::make_shared<Inode>(); n->ino = gIno++; (*gFiles)[p] = n; }
  n->data = data;
  n->mtime = nowNs();
}
std::vector<std::string> list() {
  init();
  std::vector<std::string> r;
  for (auto& f : *gFiles) if (!f.second->dir) r.push_back(f.first);
  return r;
}
std::vector<std::string> listDir(const std::string& dir) {
  init();
  std::vector<std::string> r;
  for (auto& f : *gFiles) if (parent(f.first) == dir && f.first != dir) r.push_back(f.first);
  return r;
}
void removeAll() { init(); for (auto it = gFiles->begin(); it != gFiles->end();) { if (it->first != "/sim") it = gFiles->erase(it); else ++it; } }
void erase(const std::string& p) { init(); gFiles->erase(p); }
uint64_t totalBytes() { init(); uint64_t t = 0; for (auto& f : *gFiles) t += f.second->data.size(); return t; }
int openHandles() { int n = 0; if (gHandles) for (auto h : *gHandles) n += h->used; return n; }
bool serialize() {
  init();
  std::string b;
  auto u64 = [&](uint64_t v) { b.append((char*)&v, 8); };
  u64(gFiles->size());
  u64((uint64_t)nowNs());
  for (auto& f : *gFiles) {
    u64(f.first.size()); b += f.first;
    u64(f.second->dir); u64(f.second->ino); u64(f.second->mtime);
    u64(f.second->data.size()); b += f.second->data;
  }
  if (b.size() > kFsBlob) return false;
  memcpy(sh->fsBlob, b.data(), b.size());
  sh->fsBlobLen = b.size();
  return true;
}
void deserialize() {
  init();
  gFiles->clear();
  const uint8_t* p = sh->fsBlob;
  auto u64 = [&]() { uint64_t v; memcpy(&v, p, 8); p += 8; return v; };
  auto str = [&]() { uint64_t n = u64(); std::string s((const char*)p, n); p += n; return s; };
  uint64_t n = u64();
  uint64_t t = u64();
  advance((int64_t)t);
  for (uint64_t i = 0; i < n; i++) {
    std::string name = str();
    auto x = std::make_shared<Inode>();
    x->dir = u64(); x->ino = u64(); x->mtime = u64();
    gIno = std::max(gIno, x->ino + 1);
    x->data = str();
    (*gFiles)[name] = x;
  }
}

[[noreturn]] static void crashNow() {
  sh->faultCount[fCrash] += 0;
  if (!serialize()) harnessError("file system image too large for a crash");
  finish(kCrashPoint);
  abort();
}

// every file operation goes through here: scheduling point, latency, crash, fault
static FaultDecision io(const char* op, const std::string& path, uint64_t size, std::vector<int> kinds, bool isWrite = false) {
  if (!inSim()) return FaultDecision();
  preemptPoint(op);
  kinds.insert(kinds.begin(), fCrash);
  kinds.push_back(fSlowIo);
  FaultDecision d = decideFault(kinds, path, size);
  int64_t a = isWrite && gWLatMax ? gWLatMin : gLatMin, b = isWrite && gWLatMax ? gWLatMax : gLatMax;
  if (b > 0) {
    int64_t l = a + (int64_t)(Rng::mix(sh->seed * 31 + gIo) % (uint64_t)(b - a + 1));
    sleepNs(l);
  }
  if (d.kind == fSlowIo) {
    sleepNs(faultCfg().slowNs ? 1 + d.param % faultCfg().slowNs : 1000000 + d.param % 500000000);
    d = FaultDecision();
  } else if (d.kind == fCrash && !isWrite) {
    crashNow();
  }
  return d;
}
static int64_t room(uint64_t grow) {
  int64_t cap = faultCfg().diskCapacity;
  if (cap < 0) return (int64_t)grow;
  int64_t left = cap - (int64_t)totalBytes();
  if (left < 0) left = 0;
  return std::min<int64_t>(left, (int64_t)grow);
}
static void applyWrite(Handle* h, InodeP n, const std::string& path, uint64_t off, const void* buf, uint64_t len) {
  if (len == 0) return;
  if (off + len > (64ull << 20)) {
    if (off + len > (1ull << 31)) harnessError("simulated file too large: %s %lu", path.c_str(), (unsigned long)(off + len));
  }
  if (n->data.size() < off + len) {
    if (n->data.capacity() < off + len) n->data.reserve((off + len) * 3 / 2);
    n->data.resize(off + len);
  }
  memcpy(&n->data[off], buf, len);
  n->mtime = inSim() ? nowNs() : 0;
  sh->counters[60] += len;
  if (gOnWrite && inSim()) { noPreempt(1); (*gOnWrite)(WriteEvent{path, off, len}); noPreempt(-1); }
  (void)h;
}
static int writeErr(const FaultDecision& d) { return d.kind == fWriteEnospc ? ENOSPC : EIO; }

static ssize_t doWriteAt(int fd, const void* buf, size_t len, uint64_t off, const std::vector<int>& kinds, const char* op) {
  raceRange(buf, len, false);
  Handle* h = H(fd);
  if (!h) { errno = EBADF; return -1; }
  if ((h->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  if (h->flags & O_DIRECT) {
    if (off % 512 || len % 512 || (uintptr_t)buf % 512) { errno = EINVAL; return -1; }
  }
  InodeP node = h->node;
  std::string path = h->path;
  FaultDecision d = io(op, path, len, kinds, true);
  if (d.kind == fCrash) {
    uint64_t n = std::min<uint64_t>((uint64_t)d.param, len);
    if (n) sh->faultCount[fTornCrash]++;
    applyWrite(h, node, path, off, buf, n);
    crashNow();
  }
  if (d.kind == fWriteEio || d.kind == fWriteEnospc) {
    // the failed call may have put a prefix on the medium, as real disks do
    if (d.param % 3 == 0) applyWrite(h, node, path, off, buf, (uint64_t)(d.param / 3) % (len + 1));
    errno = writeErr(d);
    return -1;
  }
  if (d.kind == fEintr) { errno = EINTR; return -1; }
  size_t todo = len;
  if (d.kind == fShortWrite && len > 1) {
    size_t unit = (h->flags & O_DIRECT) ? 512 : 1;
    todo = 1 + (size_t)(d.param % (int64_t)(len - 1));
    todo = todo / unit * unit;
    if (todo == 0) todo = len;
  }
  uint64_t grow = off + todo > node->data.size() ? off + todo - node->data.size() : 0;
  if (grow && faultCfg().diskCapacity >= 0 && inSim()) {
    int64_t r = room(grow);
    if (r < (int64_t)grow) {
      sh->faultCount[fDiskFull]++;
      uint64_t lost = grow - (uint64_t)r;
      if (lost >= todo) { errno = ENOSPC; return -1; }
      todo -= lost;
    }
  }
  applyWrite(h, node, path, off, buf, todo);
  return (ssize_t)todo;
}
static ssize_t doReadAt(int fd, void* buf, size_t len, uint64_t off) {
  Handle* h = H(fd);
  if (!h) { errno = EBADF; return -1; }
  if ((h->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  if (h->node->dir) { errno = EISDIR; return -1; }
  if (h->flags & O_DIRECT) {
    if (off % 512 || len % 512 || (uintptr_t)buf % 512) { errno = EINVAL; return -1; }
  }
  InodeP node = h->node;
  FaultDecision d = io("read", h->path, len, {fReadEio, fShortRead});
  if (d.kind == fReadEio) { errno = EIO; return -1; }
  if (off >= node->data.size()) return 0;
  size_t n = std::min<size_t>(len, node->data.size() - off);
  if (d.kind == fShortRead && n > 1) n = 1 + (size_t)(d.param % (int64_t)(n - 1));
  raceRange(buf, n, true);
  memcpy(buf, node->data.data() + off, n);
  sh->counters[61] += n;
  return (ssize_t)n;
}

static int doOpen(const char* cpath, int flags) {
  std::string p = norm(cpath);
  FaultDecision d = io("open", p, 0, {fOpenFail});
  if (d.kind == fOpenFail) {
    static const int errs[] = {EMFILE, EACCES, EIO, ENFILE};
    errno = errs[d.param % 4];
    return -1;
  }
  InodeP n = find(p);
  if (n && n->dir) {
    if ((flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
    return newHandle(n, p, flags);
  }
  if (flags & O_DIRECTORY) { errno = n ? ENOTDIR : ENOENT; return -1; }
  if (!n) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    InodeP par = find(parent(p));
    if (!par) { errno = ENOENT; return -1; }
    if (!par->dir) { errno = ENOTDIR; return -1; }
    n = std::make_shared<Inode>();
    n->ino = gIno++;
    (*gFiles)[p] = n;
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (flags & O_TRUNC) n->data.clear();
  }
  return newHandle(n, p, flags);
}
static int doClose(int fd) {
  Handle* h = H(fd);
  if (!h) { errno = EBADF; return -1; }
  bool w = (h->flags & O_ACCMODE) != O_RDONLY;
  FaultDecision d = w ? io("close", h->path, 0, {fCloseEio}) : io("close", h->path, 0, {});
  h->used = false;
  h->node.reset();
  if (d.kind == fCloseEio) { errno = EIO; return -1; }
  return 0;
}
static int64_t doSeek(int fd, int64_t off, int wh) {
  Handle* h = H(fd);
  if (!h) { errno = EBADF; return -1; }
  if (inSim() && !(wh == SEEK_CUR && off == 0)) {
    FaultDecision d = io("lseek", h->path, 0, {fSeekFail});
    if (d.kind == fSeekFail) { errno = EIO; return -1; }
  }
  int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)h->pos : (int64_t)h->node->data.size();
  if (base + off < 0) { errno = EINVAL; return -1; }
  h->pos = (uint64_t)(base + off);
  return (int64_t)h->pos;
}
static const std::vector<int> kWriteKinds = {fWriteEio, fWriteEnospc, fShortWrite};

// ---- stdio cookies ----
static ssize_t ckRead(void* c, char* buf, size_t n) {
  int fd = (int)(intptr_t)c;
  Handle* h = H(fd);
  if (!h) { errno = EBADF; return -1; }
  ssize_t r = doReadAt(fd, buf, n, h->pos);
  if (r > 0) H(fd)->pos += r;
  return r;
}
static ssize_t ckWrite(void* c, const char* buf, size_t n) {
  int fd = (int)(intptr_t)c;
  size_t done = 0;
  while (done < n) {
    Handle* h = H(fd);
    if (!h) { errno = EBADF; return 0; }
    if (h->flags & O_APPEND) h->pos = h->node->data.size();
    ssize_t r = doWriteAt(fd, buf + done, n - done, h->pos, kWriteKinds, "write");
    if (r < 0) return (ssize_t)done;
    H(fd)->pos += r;
    done += r;
  }
  return (ssize_t)done;
}
static int ckSeek(void* c, off64_t* off, int wh) {
  int64_t r = doSeek((int)(intptr_t)c, *off, wh);
  if (r < 0) return -1;
  *off = r;
  return 0;
}
static int ckClose(void* c) {
  int fd = (int)(intptr_t)c;
  Handle* h = H(fd);
  if (h && h->file) gFileFd->erase(h->file);
  return doClose(fd);
}
static FILE* fdFile(int fd, const char* mode) {
  cookie_io_functions_t f = {ckRead, ckWrite, ckSeek, ckClose};
  FILE* r = ((FILE * (*)(void*, const char*, cookie_io_functions_t)) realSym("fopencookie"))((void*)(intptr_t)fd, mode, f);
  if (!r) harnessError("fopencookie failed");
  __fsetlocking(r, FSETLOCKING_BYCALLER);
  if (gBuf) {
    H(fd)->buffer.reset(new char[gBuf]);
    setvbuf(r, H(fd)->buffer.get(), _IOFBF, gBuf);
  }
  H(fd)->file = r;
  (*gFileFd)[r] = fd;
  return r;
}
static FILE* doFopen(const char* path, const char* mode) {
  int flags = 0;
  bool plus = strchr(mode, '+') != nullptr;
  if (mode[0] == 'r') flags = plus ? O_RDWR : O_RDONLY;
  else if (mode[0] == 'w') flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  if (strchr(mode, 'x')) flags |= O_EXCL;
  int fd = doOpen(path, flags);
  if (fd < 0) return nullptr;
  std::string m;
  m += mode[0];
  if (plus) m += '+';
  return fdFile(fd, m.c_str());
}
static void fillStat(struct stat* st, const InodeP& n) {
  memset(st, 0, sizeof *st);
  st->st_dev = 99;
  st->st_ino = n->ino;
  st->st_mode = n->dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
  st->st_nlink = 1;
  st->st_size = (off_t)n->data.size();
  st->st_blksize = 4096;
  st->st_blocks = (st->st_size + 511) / 512;
  st->st_mtim.tv_sec = 1700000000 + n->mtime / 1000000000;
  st->st_mtim.tv_nsec = n->mtime % 1000000000;
}
static int doStat(const char* p, struct stat* st) {
  std::string path = norm(p);
  FaultDecision d = io("stat", path, 0, {fStatFail});
  if (d.kind == fStatFail) { errno = EIO; return -1; }
  InodeP n = find(path);
  if (!n) { errno = ENOENT; return -1; }
  fillStat(st, n);
  return 0;
}
static bool hasChildren(const std::string& p) {
  for (auto& f : *gFiles) if (f.first != p && parent(f.first) == p) return true;
  return false;
}
static int doUnlink(const char* cp, bool rmdirOk, bool fileOk) {
  std::string p = norm(cp);
  FaultDecision d = io("unlink", p, 0, {fUnlinkFail});
  if (d.kind == fUnlinkFail) { errno = d.param & 1 ? EACCES : EIO; return -1; }
  InodeP n = find(p);
  if (!n) { errno = ENOENT; return -1; }
  if (n->dir) {
    if (!rmdirOk) { errno = EISDIR; return -1; }
    if (hasChildren(p)) { errno = ENOTEMPTY; return -1; }
  } else if (!fileOk) { errno = ENOTDIR; return -1; }
  gFiles->erase(p);
  return 0;
}
static int doRename(const char* a, const char* b) {
  std::string pa = norm(a), pb = norm(b);
  FaultDecision d = io("rename", pa, 0, {fRenameFail});
  if (d.kind == fRenameFail) { errno = d.param & 1 ? EACCES : EIO; return -1; }
  InodeP n = find(pa);
  if (!n || !find(parent(pb))) { errno = ENOENT; return -1; }
  InodeP m = find(pb);
  if (m && m->dir != n->dir) { errno = m->dir ? EISDIR : ENOTDIR; return -1; }
  if (pa == pb) return 0;
  if (n->dir) { errno = EXDEV; return -1; }
  (*gFiles)[pb] = n;
  gFiles->erase(pa);
  return 0;
}
static int doMkdir(const char* cp) {
  std::string p = norm(cp);
  FaultDecision d = io("mkdir", p, 0, {fMkdirFail});
  if (d.kind == fMkdirFail) { errno = EACCES; return -1; }
  if (find(p)) { errno = EEXIST; return -1; }
  InodeP par = find(parent(p));
  if (!par) { errno = ENOENT; return -1; }
  if (!par->dir) { errno = ENOTDIR; return -1; }
  auto n = std::make_shared<Inode>();
  n->dir = true;
  n->ino = gIno++;
  (*gFiles)[p] = n;
  return 0;
}
static int truncNode(const InodeP& n, const std::string& path, int64_t len) {
  if (len < 0) { errno = EINVAL; return -1; }
  FaultDecision d = io("truncate", path, 0, {fTruncFail});
  if (d.kind == fTruncFail) { errno = EIO; return -1; }
  if (len > (1ll << 31)) harnessError("truncate too large");
  n->data.resize((size_t)len);
  n->mtime = inSim() ? nowNs() : 0;
  return 0;
}

// ---- POSIX AIO ----
struct AioReq { struct aiocb* cb; uint64_t lat; };
static std::map<const struct aiocb*, std::pair<int, ssize_t>>* gAio = nullptr;
static void* aioThread(void* p) {
  AioReq* r = (AioReq*)p;
  struct aiocb* cb = r->cb;
  uint64_t lat = r->lat;
  delete r;
  if (lat) sleepNs((int64_t)lat);
  static const std::vector<int> kinds = {fAioError, fAioShort};
  int fd = cb->aio_fildes;
  Handle* h = H(fd);
  ssize_t ret = -1;
  int err = 0;
  if (!h) err = EBADF;
  else {
    raceRange((const void*)cb->aio_buf, cb->aio_nbytes, false);
    FaultDecision d = io("aio", h->path, cb->aio_nbytes, kinds, true);
    size_t len = cb->aio_nbytes;
    if (d.kind == fCrash) {
      uint64_t n = std::min<uint64_t>((uint64_t)d.param, len);
      if (n) sh->faultCount[fTornCrash]++;
      applyWrite(h, h->node, h->path, cb->aio_offset, (const void*)cb->aio_buf, n);
      crashNow();
    }
    h = H(fd);
    if (!h) fail("file closed while an asynchronous write to it was in flight");
    if (d.kind == fAioError) err = d.param & 1 ? EIO : ENOSPC;
    else {
      size_t todo = len;
      if (d.kind == fAioShort) todo = ((size_t)(d.param % (int64_t)len)) / 512 * 512;
      uint64_t off = cb->aio_offset;
      uint64_t grow = off + todo > h->node->data.size() ? off + todo - h->node->data.size() : 0;
      if (grow && faultCfg().diskCapacity >= 0) {
        uint64_t rm = (uint64_t)room(grow);
        if (rm < grow) { sh->faultCount[fDiskFull]++; todo = grow - rm >= todo ? 0 : todo - (grow - rm); if (!todo) err = ENOSPC; }
      }
      if (!err) { applyWrite(h, h->node, h->path, off, (const void*)cb->aio_buf, todo); ret = (ssize_t)todo; }
    }
  }
  (*gAio)[cb] = {err, ret};
  if (cb->aio_sigevent.sigev_notify == SIGEV_THREAD) cb->aio_sigevent.sigev_notify_function(cb->aio_sigevent.sigev_value);
  return nullptr;
}
} // namespace fs
} // namespace sim

using namespace sim;
using namespace sim::fs;
#define REALF(name, T) ((T)realSym(#name))

extern "C" {

FILE* fopen(const char* p, const char* m) {
  if (ours(p)) return doFopen(p, m);
  return REALF(fopen, FILE * (*)(const char*, const char*))(p, m);
}
FILE* fopen64(const char* p, const char* m) {
  if (ours(p)) return doFopen(p, m);
  return REALF(fopen64, FILE * (*)(const char*, const char*))(p, m);
}
FILE* fdopen(int fd, const char* m) {
  if (H(fd)) return fdFile(fd, m);
  return REALF(fdopen, FILE * (*)(int, const char*))(fd, m);
}
// glibc's cookie streams mishandle SEEK_CUR when data is pending: do what files do
static int simSeek(const char* name, FILE* f, off64_t off, int wh) {
  if (wh == SEEK_CUR && gFileFd && gFileFd->count(f)) {
    off64_t at = ftello64(f);
    if (at < 0) return -1;
    off += at;
    wh = SEEK_SET;
  }
  return ((int (*)(FILE*, off64_t, int))realSym(name))(f, off, wh);
}
int fseek(FILE* f, long off, int wh) { return simSeek("fseek", f, off, wh); }
int fseeko(FILE* f, off_t off, int wh) { return simSeek("fseeko", f, off, wh); }
int fseeko64(FILE* f, off64_t off, int wh) { return simSeek("fseeko64", f, off, wh); }
int fileno(FILE* f) {
  if (gFileFd) {
    auto it = gFileFd->find(f);
    if (it != gFileFd->end()) return it->second;
  }
  return REALF(fileno, int (*)(FILE*))(f);
}
static int vopen(const char* name, const char* p, int flags, mode_t mode) {
  if (ours(p)) return doOpen(p, flags);
  return ((int (*)(const char*, int, ...))realSym(name))(p, flags, mode);
}
int open(const char* p, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
  return vopen("open", p, flags, m);
}
int open64(const char* p, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
  return vopen("open64", p, flags, m);
}
static int vopenat(const char* name, int dfd, const char* p, int flags, mode_t mode) {
  if (ours(p)) return doOpen(p, flags);
  if (p && p[0] != '/' && H(dfd)) return doOpen((H(dfd)->path + "/" + p).c_str(), flags);
  return ((int (*)(int, const char*, int, ...))realSym(name))(dfd, p, flags, mode);
}
int openat(int dfd, const char* p, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
  return vopenat("openat", dfd, p, flags, m);
}
int openat64(int dfd, const char* p, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
  return vopenat("openat64", dfd, p, flags, m);
}
int close(int fd) {
  if (fd >= kFdBase) return doClose(fd);
  return REALF(close, int (*)(int))(fd);
}
ssize_t read(int fd, void* b, size_t n) {
  if (fd >= kFdBase) return ckRead((void*)(intptr_t)fd, (char*)b, n);
  return REALF(read, ssize_t (*)(int, void*, size_t))(fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
  if (fd >= kFdBase) {
    Handle* h = H(fd);
    if (!h) { errno = EBADF; return -1; }
    if (h->flags & O_APPEND) h->pos = h->node->data.size();
    ssize_t r = doWriteAt(fd, b, n, h->pos, kWriteKinds, "write");
    if (r > 0) H(fd)->pos += r;
    return r;
  }
  return REALF(write, ssize_t (*)(int, const void*, size_t))(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (fd >= kFdBase) {
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
      ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
      if (r < 0) return t ? t : r;
      t += r;
      if ((size_t)r < v[i].iov_len) break;
    }
    return t;
  }
  return REALF(writev, ssize_t (*)(int, const struct iovec*, int))(fd, v, c);
}
ssize_t pread(int fd, void* b, size_t n, off_t o) {
  if (fd >= kFdBase) return doReadAt(fd, b, n, o);
  return REALF(pread, ssize_t (*)(int, void*, size_t, off_t))(fd, b, n, o);
}
ssize_t pread64(int fd, void* b, size_t n, off64_t o) {
  if (fd >= kFdBase) return doReadAt(fd, b, n, o);
  return REALF(pread64, ssize_t (*)(int, void*, size_t, off64_t))(fd, b, n, o);
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
  if (fd >= kFdBase) return doWriteAt(fd, b, n, o, kWriteKinds, "pwrite");
  return REALF(pwrite, ssize_t (*)(int, const void*, size_t, off_t))(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) {
  if (fd >= kFdBase) return doWriteAt(fd, b, n, o, kWriteKinds, "pwrite");
  return REALF(pwrite64, ssize_t (*)(int, const void*, size_t, off64_t))(fd, b, n, o);
}
off_t lseek(int fd, off_t o, int w) {
  if (fd >= kFdBase) return doSeek(fd, o, w);
  return REALF(lseek, off_t (*)(int, off_t, int))(fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) {
  if (fd >= kFdBase) return doSeek(fd, o, w);
  return REALF(lseek64, off64_t (*)(int, off64_t, int))(fd, o, w);
}
int fsync(int fd) {
  if (fd >= kFdBase) { Handle* h = H(fd); if (!h) { errno = EBADF; return -1; } FaultDecision d = io("fsync", h->path, 0, {fFlushEio}); if (d.kind) { errno = EIO; return -1; } return 0; }
  return REALF(fsync, int (*)(int))(fd);
}
int fdatasync(int fd) {
  if (fd >= kFdBase) return fsync(fd);
  return REALF(fdatasync, int (*)(int))(fd);
}
int ftruncate(int fd, off_t l) {
  if (fd >= kFdBase) { Handle* h = H(fd); if (!h) { errno = EBADF; return -1; } if ((h->flags & O_ACCMODE) == O_RDONLY) { errno = EINVAL; return -1; } return truncNode(h->node, h->path, l); }
  return REALF(ftruncate, int (*)(int, off_t))(fd, l);
}
int ftruncate64(int fd, off64_t l) {
  if (fd >= kFdBase) return ftruncate(fd, l);
  return REALF(ftruncate64, int (*)(int, off64_t))(fd, l);
}
int truncate(const char* p, off_t l) {
  if (ours(p)) { std::string q = norm(p); InodeP n = find(q); if (!n) { errno = ENOENT; return -1; } return truncNode(n, q, l); }
  return REALF(truncate, int (*)(const char*, off_t))(p, l);
}
int truncate64(const char* p, off64_t l) { if (ours(p)) return truncate(p, l); return REALF(truncate64, int (*)(const char*, off64_t))(p, l); }
int stat(const char* __restrict p, struct stat* __restrict st) {
  if (ours(p)) return doStat(p, st);
  return REALF(stat, int (*)(const char*, struct stat*))(p, st);
}
int lstat(const char* __restrict p, struct stat* __restrict st) {
  if (ours(p)) return doStat(p, st);
  return REALF(lstat, int (*)(const char*, struct stat*))(p, st);
}
int fstat(int fd, struct stat* st) {
  if (fd >= kFdBase) { Handle* h = H(fd); if (!h) { errno = EBADF; return -1; } fillStat(st, h->node); return 0; }
  return REALF(fstat, int (*)(int, struct stat*))(fd, st);
}
int stat64(const char* __restrict p, struct stat64* __restrict st) { if (ours(p)) return doStat(p, (struct stat*)st); return REALF(stat64, int (*)(const char*, struct stat64*))(p, st); }
int lstat64(const char* __restrict p, struct stat64* __restrict st) { if (ours(p)) return doStat(p, (struct stat*)st); return REALF(lstat64, int (*)(const char*, struct stat64*))(p, st); }
int fstat64(int fd, struct stat64* st) { if (fd >= kFdBase) return fstat(fd, (struct stat*)st); return REALF(fstat64, int (*)(int, struct stat64*))(fd, st); }
int fstatat(int dfd, const char* __restrict p, struct stat* __restrict st, int fl) {
  if (ours(p)) return doStat(p, st);
  if (H(dfd)) { if (!p[0]) return fstat(dfd, st); return doStat((H(dfd)->path + "/" + p).c_str(), st); }
  return REALF(fstatat, int (*)(int, const char*, struct stat*, int))(dfd, p, st, fl);
}
int access(const char* p, int m) {
  if (ours(p)) { struct stat st; return doStat(p, &st); }
  return REALF(access, int (*)(const char*, int))(p, m);
}
int unlink(const char* p) { if (ours(p)) return doUnlink(p, false, true); return REALF(unlink, int (*)(const char*))(p); }
int rmdir(const char* p) { if (ours(p)) return doUnlink(p, true, false); return REALF(rmdir, int (*)(const char*))(p); }
int remove(const char* p) { if (ours(p)) return doUnlink(p, true, true); return REALF(remove, int (*)(const char*))(p); }
int unlinkat(int dfd, const char* p, int fl) {
  bool rd = fl & AT_REMOVEDIR;
  if (ours(p)) return doUnlink(p, rd, !rd);
  if (H(dfd)) return doUnlink((H(dfd)->path + "/" + p).c_str(), rd, !rd);
  return REALF(unlinkat, int (*)(int, const char*, int))(dfd, p, fl);
}
int rename(const char* a, const char* b) { if (ours(a) || ours(b)) return doRename(a, b); return REALF(rename, int (*)(const char*, const char*))(a, b); }
int mkdir(const char* p, mode_t m) { if (ours(p)) return doMkdir(p); return REALF(mkdir, int (*)(const char*, mode_t))(p, m); }
int chmod(const char* p, mode_t m) { if (ours(p)) return 0; return REALF(chmod, int (*)(const char*, mode_t))(p, m); }
static DIR* mkDir(int fd) {
  Handle* h = H(fd);
  if (!h || !h->node->dir) { errno = ENOTDIR; return nullptr; }
  DirStream* d = new DirStream;
  d->fd = fd;
  for (auto& f : listDir(h->path)) d->ents.push_back({f.substr(h->path.size() + 1), find(f)->dir});
  // directory order is not specified by POSIX: permute it
  for (size_t i = d->ents.size(); i > 1; i--) std::swap(d->ents[i - 1], d->ents[Rng::mix(sh->seed + i * 77) % i]);
  gDirs->insert(d);
  return (DIR*)d;
}
DIR* opendir(const char* p) {
  if (ours(p)) { int fd = doOpen(p, O_RDONLY | O_DIRECTORY); if (fd < 0) return nullptr; return mkDir(fd); }
  return REALF(opendir, DIR * (*)(const char*))(p);
}
DIR* fdopendir(int fd) { if (fd >= kFdBase) return mkDir(fd); return REALF(fdopendir, DIR * (*)(int))(fd); }
static bool isDir_(DIR* d) { return gDirs && gDirs->count(d); }
struct dirent* readdir(DIR* dd) {
  if (!isDir_(dd)) return REALF(readdir, struct dirent * (*)(DIR*))(dd);
  DirStream* d = (DirStream*)dd;
  if (d->at >= d->ents.size()) return nullptr;
  memset(&d->ent, 0, sizeof d->ent);
  d->ent.d_ino = d->at + 10;
  d->ent.d_type = d->ents[d->at].second ? DT_DIR : DT_REG;
  snprintf(d->ent.d_name, sizeof d->ent.d_name, "%s", d->ents[d->at].first.c_str());
  d->at++;
  return &d->ent;
}
struct dirent64* readdir64(DIR* dd) {
  if (!isDir_(dd)) return REALF(readdir64, struct dirent64 * (*)(DIR*))(dd);
  return (struct dirent64*)readdir(dd);
}
int closedir(DIR* dd) {
  if (!isDir_(dd)) return REALF(closedir, int (*)(DIR*))(dd);
  DirStream* d = (DirStream*)dd;
  gDirs->erase(d);
  int fd = d->fd;
  delete d;
  return doClose(fd);
}
int dirfd(DIR* dd) { if (isDir_(dd)) return ((DirStream*)dd)->fd; return REALF(dirfd, int (*)(DIR*))(dd); }
char* realpath(const char* __restrict p, char* __restrict out) {
  if (ours(p)) {
    std::string q = norm(p);
    if (!find(q)) { errno = ENOENT; return nullptr; }
    if (!out) out = (char*)malloc(PATH_MAX);
    snprintf(out, PATH_MAX, "%s", q.c_str());
    return out;
  }
  return REALF(realpath, char* (*)(const char*, char*))(p, out);
}
ssize_t readlink(const char* __restrict p, char* __restrict b, size_t n) {
  if (ours(p)) { errno = find(norm(p)) ? EINVAL : ENOENT; return -1; }
  return REALF(readlink, ssize_t (*)(const char*, char*, size_t))(p, b, n);
}
static void fillVfs(struct statvfs* v) {
  memset(v, 0, sizeof *v);
  v->f_bsize = v->f_frsize = 4096;
  int64_t cap = faultCfg().diskCapacity >= 0 ? faultCfg().diskCapacity : (1ll << 40);
  v->f_blocks = cap / 4096;
  int64_t left = cap - (int64_t)totalBytes();
  v->f_bfree = v->f_bavail = (left > 0 ? left : 0) / 4096;
}
int statvfs(const char* __restrict p, struct statvfs* __restrict v) { if (ours(p)) { fillVfs(v); return 0; } return REALF(statvfs, int (*)(const char*, struct statvfs*))(p, v); }
int statvfs64(const char* __restrict p, struct statvfs64* __restrict v) { if (ours(p)) { fillVfs((struct statvfs*)v); return 0; } return REALF(statvfs64, int (*)(const char*, struct statvfs64*))(p, v); }
int utimensat(int dfd, const char* p, const struct timespec ts[2], int fl) {
  if (ours(p)) return 0;
  return REALF(utimensat, int (*)(int, const char*, const struct timespec[2], int))(dfd, p, ts, fl);
}
int posix_fadvise(int fd, off_t a, off_t b, int c) { if (fd >= kFdBase) return 0; return REALF(posix_fadvise, int (*)(int, off_t, off_t, int))(fd, a, b, c); }

// AIO: completions run on a simulated thread
int aio_write(struct aiocb* cb) {
  if (cb->aio_fildes < kFdBase) return REALF(aio_write, int (*)(struct aiocb*))(cb);
  if (!gAio) gAio = new std::map<const struct aiocb*, std::pair<int, ssize_t>>;
  Handle* h = H(cb->aio_fildes);
  if (!h) { errno = EBADF; return -1; }
  if (h->flags & O_DIRECT) {
    if (cb->aio_offset % 512 || cb->aio_nbytes % 512 || (uintptr_t)cb->aio_buf % 512) { errno = EINVAL; return -1; }
  }
  FaultDecision d = io("aio_submit", h->path, 0, {fAioSubmit});
  if (d.kind == fAioSubmit) { errno = EAGAIN; return -1; }
  (*gAio)[cb] = {EINPROGRESS, -1};
  AioReq* r = new AioReq{cb, gAioMax ? (uint64_t)gAioMin + Rng::mix(sh->seed * 97 + ioCount()) % (uint64_t)(gAioMax - gAioMin + 1) : 0};
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
  pthread_t th;
  int e = pthread_create(&th, &a, aioThread, r);
  pthread_attr_destroy(&a);
  if (e) { errno = e; return -1; }
  return 0;
}
int aio_error(const struct aiocb* cb) {
  if (cb->aio_fildes < kFdBase) return REALF(aio_error, int (*)(const struct aiocb*))(cb);
  return (*gAio)[cb].first;
}
ssize_t aio_return(struct aiocb* cb) {
  if (cb->aio_fildes < kFdBase) return REALF(aio_return, ssize_t (*)(struct aiocb*))(cb);
  return (*gAio)[cb].second;
}
int aio_write64(struct aiocb64* cb) { return aio_write((struct aiocb*)cb); }
int aio_error64(const struct aiocb64* cb) { return aio_error((const struct aiocb*)cb); }
ssize_t aio_return64(struct aiocb64* cb) { return aio_return((struct aiocb*)cb); }
} // extern "C"

// with -fno-weak this inline function is expected elsewhere
#include <typeinfo>
extern "C" bool simTypeInfoEq(const std::type_info* a, const std::type_info* b) asm("_ZNKSt9type_infoeqERKS_");
extern "C" bool simTypeInfoEq(const std::type_info* a, const std::type_info* b) { return a->name() == b->name() || strcmp(a->name(), b->name()) == 0; }
