// Files replaced atomically, and the cache of file descriptions (C17).
#include "mkrec.h"
#include "faultpick.h"
#include "alloc.h"
#include <zstd.h>
#include <vrs/FileCache.h>
#include <vrs/FileDetailsCache.h>
using namespace w;
using sim::fail;
using namespace sim;
using T = Record::Type;
using RI = vrs::IndexRecord::RecordInfo;

extern "C" uint32_t vrs_sim_index_batch_size(uint32_t defaultSize);

namespace {
const char* const kAbsent = "\1absent";
string now(const string& path) { return fs::exists(path) ? fs::content(path) : string(kAbsent); }
enum { kAborted = -77001, kUnknown = -77002 };
string brief(const string& s) {
  if (s == kAbsent) return "absent";
  return std::to_string(s.size()) + " bytes, hash " + std::to_string(hashStr(s) % 100000);
}
void pickCacheFaults(Ctx& ctx, bool rename) {
  Rng& r = ctx.rng;
  FaultConfig& f = faultCfg();
  static const int kinds[] = {fWriteEio, fWriteEnospc, fShortWrite, fOpenFail, fCloseEio, fSeekFail, fStatFail, fUnlinkFail, fRenameFail, fReadEio, fShortRead, fMkdirFail};
  int n = 1 + (int)r.below(3);
  for (int i = 0; i < n; i++) {
    int k = kinds[r.below(12)];
    if (k == fRenameFail && !rename) k = fCloseEio;
    static const double ps[] = {0.03, 0.15, 0.4, 1.0};
    f.prob[k] = ps[r.below(4)];
    if (r.chance(0.5)) f.limit[k] = 1 + (int)r.below(4);
  }
  if (r.chance(0.2)) f.diskCapacity = -2; // set later, relative to the content
  if (r.chance(0.4)) fs::setStdioBuf(512 << r.below(5));
}

// ---------------------------------------------------------------- atomic files
const string kPath = "/sim/tmp/settings.bin", kOther = "/sim/tmp/other.bin";
struct Attempt {
  string content;
  vector<size_t> cuts;
  int end;        // 0 close, 1 destructor, 2 abort, 3 create another file with the same object, 4 close, then reuse
  bool rewrite;   // the start of the file is written again at the end, as for headers
  bool zstd;
};
Attempt attempt(const Ctx& ctx, int w, int k) {
  Rng r = ctx.opRng(1000 + (uint64_t)w * 50 + (uint64_t)k);
  Attempt a;
  size_t n = pickSize(r, 9000);
  a.content = makePayload((uint64_t)w * 100 + (uint64_t)k + 1, n, (int)r.below(3));
  a.content += "#" + std::to_string(w) + "." + std::to_string(k); // unique
  for (size_t left = a.content.size(); left > 0;) {
    size_t c = r.chance(0.3) ? left : 1 + r.below(left);
    a.cuts.push_back(c);
    left -= c;
  }
  a.end = (int)r.below(5);
  a.rewrite = r.chance(0.4);
  a.zstd = false;
  return a;
}
// returns 0 when everything was written
int fill(vrs::WriteFileHandler& f, const Attempt& a) {
  size_t at = 0;
  if (a.rewrite && a.content.size() > 20) {
    string fake(20, '?');
    int e = f.write(fake.data(), 20);
    if (e) return e;
    e = f.write(a.content.data() + 20, a.content.size() - 20);
    if (e) return e;
    e = f.setPos(0);
    if (e) return e;
    return f.overwrite(a.content.data(), 20);
  }
  for (size_t c : a.cuts) {
    int e = f.write(a.content.data() + at, c);
    if (e) return e;
    at += c;
  }
  return 0;
}
struct Atomic {
  Ctx& ctx;
  int writers, tries;
  bool zstd;
  string old;
  set<string> legal;      // contents which may be seen at kPath
  bool mayBeAbsent = false;
  std::atomic<bool> done{false};
  explicit Atomic(Ctx& c) : ctx(c) {}
  string read() {
    if (!zstd) return now(kPath);
    string raw = now(kPath);
    if (raw == kAbsent || raw.empty()) return raw;
    unsigned long long n = ZSTD_getFrameContentSize(raw.data(), raw.size());
    if (n > 10000000) fail("partial content: compressed file of %zu bytes", raw.size());
    string s(n, 0);
    size_t e = ZSTD_decompress(s.data(), n, raw.data(), raw.size());
    if (ZSTD_isError(e) || e != n) fail("partial content: a compressed file of %zu bytes can't be read", raw.size());
    return s;
  }
  void check(const string& s, const char* where) {
    if (s == kAbsent) {
      if (!mayBeAbsent && !faultsInjectedKind(fRenameFail)) fail("file missing: %s", where);
      return;
    }
    noPreempt(1);
    bool ok = legal.count(s) > 0;
    noPreempt(-1);
    if (!ok) fail("partial content: %s: %s", where, brief(s).c_str());
  }
  void writer(int w) {
    unique_ptr<vrs::AtomicDiskFile> f;
    for (int k = 0; k < tries; k++) {
      if (!ctx.op((uint32_t)(w * 10 + k))) continue;
      Attempt a = attempt(ctx, w, k);
      bool alone = writers == 1;
      string before = alone ? read() : "";
      uint64_t renames = faultsInjectedKind(fRenameFail);
      noPreempt(1);
      legal.insert(a.content);
      noPreempt(-1);
      int st;
      if (zstd) {
        st = vrs::DiskFile::writeZstdFile(kPath, a.content);
      } else {
        if (!f) f = std::make_unique<vrs::AtomicDiskFile>();
        st = f->create(kPath);
        if (st) {
          f.reset();
        } else {
          st = fill(*f, a);
          if (st) {
            f->abort();
            probe("aborted after an error");
          } else if (a.end == 2) {
            f->abort();
            st = kAborted;
            f.reset();
          } else if (a.end == 1) {
            f.reset(); // publishes, unless that fails
            st = kUnknown;
          } else if (a.end == 3) {
            // the first file is complete: it must go to its own place
            string other = "other" + a.content;
            int e = f->create(kOther);
            st = kUnknown;
            if (e == 0) {
              e = f->write(other.data(), other.size());
              if (e) f->abort(); else e = f->close();
              if (e == 0 && alone && now(kOther) != other) fail("wrong file replaced: the second file made with one object has %s", brief(now(kOther)).c_str());
            }
            f.reset();
          } else {
            st = f->close();
            if (a.end == 4 && st == 0) {
              // the object is free again: reading the file, or anything else
              string other = "plain" + a.content;
              int e = f->open(kPath);
              if (e == 0) e = f->close();
              if (alone && faultsInjected() == 0 && (e || now(kPath) != a.content)) fail("reading renamed a file: opening with the same object: %d, now %s", e, brief(now(kPath)).c_str());
              fs::setContent("/sim/tmp/third.bin", other);
              e = f->open("/sim/tmp/third.bin");
              if (e == 0) e = f->close();
              if (alone && now("/sim/tmp/third.bin") != other) fail("reading renamed a file: %s", "third file gone");
            } else {
              f.reset();
            }
          }
        }
      }
      if (!alone) {
        check(read(), "after a replacement");
        continue;
      }
      string after = read();
      bool refused = faultsInjectedKind(fRenameFail) != renames;
      if (st == 0 && after != a.content) fail("replacement lost: success reported, but the file has %s", brief(after).c_str());
      if (st == kAborted && after != before) fail("abandoned replacement published: %s instead of %s", brief(after).c_str(), brief(before).c_str());
      if (st == kUnknown && after != a.content && !(faultsInjected() && after == before) && !refused) fail("replacement lost: %s", brief(after).c_str());
      if (st != 0 && st != kAborted && st != kUnknown && after != before && after != a.content && !refused) fail("old content lost: error %d reported and the file has %s instead of %s", st, brief(after).c_str(), brief(before).c_str());
      if (st != 0 && st != kAborted && st != kUnknown && after == a.content && a.content != before && !refused) probe("error reported after publishing");
      check(after, "after a replacement");
      if (!faultsInjected())
        for (auto& p : fs::listDir("/sim/tmp"))
          if (p.find('~') != string::npos && !(f && f->isOpened())) fail("temporary file left behind: %s", p.c_str());
    }
  }
};
void atomicRun(Ctx& ctx, bool zstd, bool faults, bool crash) {
  Atomic a(ctx);
  a.zstd = zstd;
  a.writers = ctx.rng.chance(0.5) ? 1 : 2 + (int)ctx.rng.below(2);
  a.tries = 1 + (int)ctx.rng.below(4);
  bool hadOld = ctx.rng.chance(0.7);
  if (faults) pickCacheFaults(ctx, !crash);
  uint64_t crashIo = ctx.rng.below(1ull << ctx.rng.range(1, 7));
  bool torn = ctx.rng.chance(0.5);
  if (ctx.rng.chance(0.5)) fs::setWriteLatency(0, 20000000);
  ctx.begin();
  {
    if (ctx.life == 0) {
      fs::mkdirs("/sim/tmp");
      if (hadOld) {
        a.old = makePayload(77, 100 + ctx.rng.below(5000), 1);
        if (zstd) vrs::DiskFile::writeZstdFile(kPath, a.old); else fs::setContent(kPath, a.old);
        a.legal.insert(a.old);
      } else {
        a.mayBeAbsent = true;
      }
      if (faultCfg().diskCapacity == -2) faultCfg().diskCapacity = (int64_t)(fs::totalBytes() + ctx.rng.below(20000));
      if (crash) { faultCfg().crashAtIo = (int64_t)(ioCount() + crashIo); faultCfg().tornCrash = torn; }
      armFaults(faults || crash);
      vector<std::thread> ts;
      for (int w = 0; w < a.writers; w++) ts.emplace_back([&, w] { a.writer(w); });
      // anyone may look at any time
      std::thread watch([&] {
        Rng r = ctx.opRng(7);
        for (int i = 0; i < 60 && !a.done; i++) {
          a.check(a.read(), "while replacing");
          sleepNs((int64_t)r.below(5000000));
        }
      });
      for (auto& t : ts) t.join();
      a.done = true;
      watch.join();
      armFaults(false);
      a.check(a.read(), "in the end");
      if (fs::openHandles()) fail("file left open: %d handles", fs::openHandles());
      if (!faults || faultsInjected()) nontrivial();
      hist(now(kPath));
    } else {
      // the process died at any point
      armFaults(false);
      string old = makePayload(77, 100 + ctx.rng.below(5000), 1);
      if (hadOld) a.legal.insert(old); else a.mayBeAbsent = true;
      for (int w = 0; w < a.writers; w++)
        for (int k = 0; k < a.tries; k++) a.legal.insert(attempt(ctx, w, k).content);
      a.check(a.read(), "after a crash");
      nontrivial();
      // and the file can be replaced again
      vrs::AtomicDiskFile f;
      string c = "after the crash";
      if (f.create(kPath) || f.write(c.data(), c.size()) || f.close() || now(kPath) != c) fail("unusable after a crash: %s", "replacement failed");
    }
  }
  ctx.end();
}

// ---------------------------------------------------------------- descriptions
struct Details {
  set<StreamId> ids;
  map<string, string> tags;
  map<StreamId, vrs::StreamTags> streamTags;
  vector<RI> index;
  bool hasIndex = true;
  bool operator==(const Details& o) const {
    if (ids != o.ids || tags != o.tags || hasIndex != o.hasIndex || index.size() != o.index.size() || streamTags.size() != o.streamTags.size()) return false;
    for (auto& t : streamTags) {
      auto i = o.streamTags.find(t.first);
      if (i == o.streamTags.end() || i->second.vrs != t.second.vrs || i->second.user != t.second.user) return false;
    }
    for (size_t i = 0; i < index.size(); i++) {
      auto &a = index[i], &b = o.index[i];
      if (a.timestamp != b.timestamp || a.fileOffset != b.fileOffset || a.streamId != b.streamId || a.recordType != b.recordType) return false;
    }
    return true;
  }
};
Details anyDetails(Rng& r, bool thorough) {
  Details d;
  static const T types[] = {T::DATA, T::STATE, T::CONFIGURATION};
  vector<StreamId> ids;
  for (size_t n = r.below(6); n > 0; n--) {
    StreamId id(kTypes[r.below(6)], (uint16_t)(1 + r.below(r.chance(0.2) ? 60000 : 5)));
    d.ids.insert(id);
    auto& t = d.streamTags[id];
    for (size_t k = r.below(4); k > 0; k--) t.user["k" + std::to_string(r.below(9))] = makePayload(r.next(), r.below(60), kRandomBytes);
    t.vrs["VRS_Original_Recordable_Name"] = "n" + std::to_string(r.below(9));
    t.vrs[vrs::Recordable::getSerialNumberTagName()] = "s" + std::to_string(r.next());
  }
  ids.assign(d.ids.begin(), d.ids.end());
  for (size_t k = r.below(5); k > 0; k--) d.tags["t" + std::to_string(r.below(9))] = makePayload(r.next(), r.below(200), kRandomBytes);
  size_t n = r.below(r.chance(0.5) ? 10 : 400);
  uint32_t batch = vrs_sim_index_batch_size(50000);
  if (r.chance(0.1)) n = batch < 1000 ? batch * (1 + r.below(2)) + r.below(20) - 10 : n;
  if (r.chance(thorough ? 0.02 : 0.004) && batch == 50000) n = 49990 + r.below(20) + (r.chance(0.5) ? 50000 : 0);
  if (ids.empty()) n = 0;
  double ts = 0;
  int64_t off = 100;
  for (size_t i = 0; i < n; i++) {
    ts += r.unit();
    off += 40 + (int64_t)r.below(300);
    d.index.emplace_back(ts, off, ids[r.below(ids.size())], types[r.below(3)]);
  }
  d.hasIndex = r.chance(0.8);
  return d;
}
int store(const Details& d, const string& path) { return vrs::FileDetailsCache::write(path, d.ids, d.tags, d.streamTags, d.index, d.hasIndex); }
int load(Details& d, const string& path) {
  d = Details();
  return vrs::FileDetailsCache::read(path, d.ids, d.tags, d.streamTags, d.index, d.hasIndex);
}
void detailsRun(Ctx& ctx, bool faults, bool crash) {
  string path = "/sim/tmp/details";
  if (faults) pickCacheFaults(ctx, !crash);
  uint64_t crashIo = ctx.rng.below(1ull << ctx.rng.range(1, 6));
  bool torn = ctx.rng.chance(0.5);
  ctx.begin();
  {
    Rng r0 = ctx.opRng(1), r1 = ctx.opRng(2);
    Details a = anyDetails(r0, ctx.thorough), b = anyDetails(r1, ctx.thorough), g;
    bool first = ctx.rng.chance(0.6);
    if (ctx.life == 0) {
      fs::mkdirs("/sim/tmp");
      if (first) {
        if (int e = store(a, path)) fail("cache not written: %d", e);
        if (int e = load(g, path)) fail("cache not read back: %d, %zu records", e, a.index.size());
        if (!(g == a)) fail("cache differs: %zu records, %zu streams, %zu tags", a.index.size(), a.ids.size(), a.tags.size());
      }
      if (faultCfg().diskCapacity == -2) faultCfg().diskCapacity = (int64_t)(fs::totalBytes() + ctx.rng.below(5000));
      if (crash) { faultCfg().crashAtIo = (int64_t)(ioCount() + crashIo); faultCfg().tornCrash = torn; }
      armFaults(faults || crash);
      int e = store(b, path);
      int e2 = load(g, path);
      if (e == 0 && e2 == 0 && !(g == b)) fail("cache differs: read while errors happen, %zu records for %zu", g.index.size(), b.index.size());
      armFaults(false);
      bool refused = faultsInjectedKind(fRenameFail) > 0;
      string c = now(path);
      if (e && !refused && !faultsInjected()) fail("cache not written: %d", e);
      e2 = c == kAbsent ? -1 : load(g, path);
      if (e == 0 && e2) fail("cache lost: success was reported, reading gives %d", e2);
      if (c != kAbsent && e2) fail("partial content: the cache was published and can't be read: %d", e2);
      if (c == kAbsent && first && !refused) fail("old content lost: the cache is gone after error %d", e);
      if (e2 == 0 && !(g == b) && !(e && first && g == a)) fail("partial content: the cache has something else after %d: %zu records, %zu or %zu expected", e, g.index.size(), a.index.size(), b.index.size());
      if (e == 0 && !(g == b)) fail("cache lost: success was reported, the old description is still there");
      if (e && faultsInjected()) probe("cache writing failed");
      if (fs::openHandles()) fail("file left open: %d handles", fs::openHandles());
      if (e2 == 0) {
        // any damage that shows is refused
        string good = now(path), bad;
        string p2 = "/sim/tmp/damaged";
        for (int i = 0; i < 4; i++) {
          Rng r = ctx.opRng(100 + (uint64_t)i);
          bool shows = true;
          bad = good;
          int how = (int)r.below(5);
          if (how == 0) bad.resize(r.below(good.size()));
          else if (how == 1) bad += makePayload(5, 1 + r.below(100), kRandomBytes);
          else if (how == 2) bad = makePayload(5, good.size(), kRandomBytes);
          else if (how == 3) bad = string(good.size(), '\0');
          else {
            shows = false;
            for (size_t n = 1 + r.below(8); n > 0; n--) {
              size_t at = r.chance(0.5) ? r.below(std::min<size_t>(good.size(), 200)) : r.below(good.size());
              if (r.chance(0.5)) bad[at] = (char)r.next(); else bad[at] = (char)(bad[at] ^ (1 << r.below(8)));
            }
          }
          recordFault(how == 0 ? fTruncateFile : how == 4 ? fBitFlip : fGarbage);
          fs::setContent(p2, bad);
          int e3;
          {
            AllocTrack track(bad.size());
            e3 = load(g, p2);
          }
          if (shows && bad != good && e3 == 0) fail("damaged cache accepted: damage %d, %zu bytes instead of %zu", how, bad.size(), good.size());
        }
      }
      if (!faults || faultsInjected()) nontrivial();
      hist(now(path));
    } else {
      armFaults(false);
      string c = now(path);
      if (c == kAbsent) {
        if (first) fail("old content lost: %s", "the cache is gone after a crash");
      } else {
        int e = load(g, path);
        if (e) fail("partial content: after a crash, the cache can't be read: %d", e);
        if (!(g == b) && !(first && g == a)) fail("partial content: after a crash, %zu records", g.index.size());
      }
      nontrivial();
    }
  }
  ctx.end();
}

// ---------------------------------------------------------------- files opened through the cache
// storage far away, as far as the reader knows
class RemoteDisk : public vrs::DiskFile {
 public:
  std::unique_ptr<vrs::FileHandler> makeNew() const override { return std::make_unique<RemoteDisk>(); }
  bool isRemoteFileSystem() const override { return true; }
};
const string kCacheDir = "/sim/cache/.sim/";
struct View : FileView {
  vector<uint32_t> sizes;
};
View openRemote(vrs::RecordFileReader& rd, const string& path, bool sorted, int pause, int64_t ns) {
  View v;
  rd.setFileHandler(std::make_unique<RemoteDisk>());
  vrs::FileSpec spec;
  spec.fileHandlerName = "diskfile";
  spec.chunks = {path};
  for (int i = 1; fs::exists(path + "_" + std::to_string(i)); i++) spec.chunks.push_back(path + "_" + std::to_string(i));
  if (sorted) spec.extras["sort_records"] = "true";
  v.openError = rd.openFile(spec);
  if (v.openError == 0) {
    if (pause == 1) sleepNs(ns);
    readInto(rd, v);
    for (auto& r : rd.getIndex()) v.sizes.push_back(rd.getRecordSize((uint32_t)(&r - rd.getIndex().data()), true));
  }
  rd.clearStreamPlayers();
  rd.closeFile();
  return v;
}
void compare(const View& got, const View& want, const char* where) {
  if (got.openError) fail("file unreadable with a cache: %s: error %d", where, got.openError);
  sameView(got, want, where);
  if (got.hasIndex != want.hasIndex) fail("view differs with a cache: %s: index present %d instead of %d", where, got.hasIndex, want.hasIndex);
  if (got.sizes != want.sizes) fail("view differs with a cache: %s: record sizes", where);
}
vector<string> cacheFiles() {
  vector<string> v;
  for (auto& f : fs::list()) if (f.compare(0, kCacheDir.size(), kCacheDir) == 0) v.push_back(f);
  return v;
}
enum { kPlain, kFaultyCache, kFaultySource, kCrash };
void cachedRun(Ctx& ctx, int mode) {
  MkOpts o;
  o.maxOps = 18;
  o.big = 600;
  o.cut = ctx.rng.chance(0.4);
  uint64_t crashIo = ctx.rng.below(1ull << ctx.rng.range(3, 8));
  bool torn = ctx.rng.chance(0.5);
  if (mode == kFaultyCache) {
    pickCacheFaults(ctx, true);
    faultCfg().pathFilter = [](const string& p) { return p.compare(0, 10, "/sim/cache") == 0; };
  }
  if (mode == kFaultySource) {
    pickReadFaults(ctx);
    faultCfg().pathFilter = [](const string& p) { return p.compare(0, 8, "/sim/tmp") == 0; };
  }
  ctx.begin();
  {
    Recorded x;
    string path = o.path;
    if (ctx.life == 0) {
      x = makeRecording(ctx, o);
      fs::mkdirs("/sim/cache");
    }
    View ref, refSorted;
    {
      vrs::RecordFileReader rd;
      ref = openRemote(rd, path, false, 0, 0);
      refSorted = openRemote(rd, path, true, 0, 0);
      if (ref.openError) fail("file unreadable without cache: %d", ref.openError);
    }
    if (mode == kFaultyCache && faultCfg().diskCapacity == -2) faultCfg().diskCapacity = (int64_t)(fs::totalBytes() + ctx.rng.below(1500));
    else if (faultCfg().diskCapacity == -2) faultCfg().diskCapacity = -1;
    int users = ctx.rng.chance(0.4) ? 1 : 2 + (int)ctx.rng.below(2);
    int rounds = 2 + (int)ctx.rng.below(3);
    bool cleaner = ctx.rng.chance(0.3);
    if (ctx.life > 0) {
      armFaults(false);
      users = 1;
    }
    if (mode == kCrash && ctx.life == 0) { faultCfg().crashAtIo = (int64_t)(ioCount() + crashIo); faultCfg().tornCrash = torn; }
    if (ctx.life == 0) armFaults(mode != kPlain);
    int mk = vrs::FileCache::makeFileCache("sim", "/sim/cache");
    if (mk && !faultsInjected()) fail("cache unusable: makeFileCache gives %d", mk);
    vector<std::thread> ts;
    std::atomic<int> left{users};
    for (int u = 0; u < users; u++)
      ts.emplace_back([&, u] {
        vrs::RecordFileReader rd;
        for (int k = 0; k < rounds; k++) {
          if (!ctx.op((uint32_t)(u * 10 + k))) continue;
          Rng r = ctx.opRng(500 + (uint64_t)u * 20 + (uint64_t)k);
          bool sorted = r.chance(0.35);
          View v = openRemote(rd, path, sorted, (int)r.below(2), (int64_t)r.below(20000000));
          if (mode == kFaultySource) {
            if (v.openError == 0) probe("opened in spite of faults");
            continue; // what it shows is judged by other properties
          }
          compare(v, sorted ? refSorted : ref, "while others use the cache");
          if (users == 1 && r.chance(0.4) && !cacheFiles().empty()) {
            // the cache is damaged in a way that shows
            string f = r.pick(cacheFiles()), c = fs::content(f);
            int how = (int)r.below(5);
            if (c.empty()) how = 4;
            recordFault(how == 0 ? fTruncateFile : fGarbage);
            if (how == 0) fs::setContent(f, c.substr(0, r.below(c.size())));
            if (how == 1) fs::setContent(f, c + "more");
            if (how == 2) fs::setContent(f, makePayload(9, 1 + r.below(3000), kRandomBytes));
            if (how == 3) fs::setContent(f, string(c.size(), '\0'));
            if (how == 4) fs::erase(f);
            probe("damaged cache");
          }
        }
        left--;
      });
    std::thread clean([&] {
      Rng r = ctx.opRng(8);
      while (cleaner && left > 0) {
        sleepNs((int64_t)r.below(50000000));
        for (auto& f : cacheFiles()) if (f.find('~') == string::npos) fs::erase(f);
      }
    });
    for (auto& t : ts) t.join();
    clean.join();
    armFaults(false);
    if (mode != kCrash && mode != kPlain && !faultsInjected()) {} else nontrivial();
    // everything is fine now
    vrs::RecordFileReader rd;
    faultCfg().diskCapacity = -1;
    for (int i = 0; i < 3; i++) {
      bool sorted = ctx.rng.chance(0.3);
      compare(openRemote(rd, path, sorted, 0, 0), sorted ? refSorted : ref, "in the end");
    }
    if (mk == 0) {
      bool used = false;
      for (auto& f : cacheFiles()) {
        if (f.find('~') != string::npos || f.find("vrs_details_") == string::npos) continue;
        used = true;
        Details d;
        if (int e = load(d, f)) fail("partial content: the cache in place can't be read: %d", e);
      }
      if (used) probe("cache in use");
    }
    vrs::FileCache::disableFileCache();
    if (fs::openHandles()) fail("file left open: %d handles", fs::openHandles());
    hist((uint64_t)ref.recs.size());
  }
  ctx.end();
}
} // namespace

SCENARIO("C17", atomic_replace, 1) { atomicRun(ctx, false, false, false); }
SCENARIO("C17", atomic_replace_faults, 2) { atomicRun(ctx, false, true, false); }
SCENARIO("C17", atomic_replace_crash, 1.5) { atomicRun(ctx, false, ctx.rng.chance(0.3), true); }
SCENARIO("C17", zstd_file_faults, 1) { atomicRun(ctx, true, ctx.rng.chance(0.8), false); }
SCENARIO("C17", zstd_file_crash, 0.7) { atomicRun(ctx, true, false, true); }
SCENARIO("C17", details_faults, 2) { detailsRun(ctx, ctx.rng.chance(0.8), false); }
SCENARIO("C17", details_crash, 1) { detailsRun(ctx, false, true); }
SCENARIO("C17", cached_open, 1.5) { cachedRun(ctx, kPlain); }
SCENARIO("C17", cached_open_cache_faults, 1.5) { cachedRun(ctx, kFaultyCache); }
SCENARIO("C17", cached_open_source_faults, 1) { cachedRun(ctx, kFaultySource); }
SCENARIO("C17", cached_open_crash, 1) { cachedRun(ctx, kCrash); }

// compressed and text files, read back by the project's own functions while the disk fails
SCENARIO("C17", zstd_read_faults, 0.6) {
  Rng& r = ctx.rng;
  const bool faults = r.chance(0.7);
  if (faults) {
    pickReadFaults(ctx);
    if (r.chance(0.5)) pickCacheFaults(ctx, false);
    faultCfg().diskCapacity = -1;
  }
  if (r.chance(0.5)) fs::setStdioBuf(16 << r.below(10));
  ctx.begin();
  {
    fs::mkdirs("/sim/tmp");
    initFaults(ctx.seed);
    for (int i = 0; i < 4; i++) {
      if (!ctx.op((uint32_t)i)) continue;
      Rng q = ctx.opRng((uint32_t)i);
      const string path = "/sim/tmp/z" + std::to_string(i);
      const size_t n = q.chance(0.1) ? 0 : 1 + q.below(q.chance(0.5) ? 400 : 200000);
      const string content = q.chance(0.3) ? string(n, (char)q.below(256)) : makePayload(q.next(), n, (int)q.below(3));
      if (q.chance(0.3)) { // text
        armFaults(faults);
        int st = vrs::DiskFile::writeTextFile(path, content);
        armFaults(false);
        if (st && !faultsInjected()) fail("text file not written: error %d", st);
        if (st) continue;
        if (now(path) != content) fail("text file wrong: %s", brief(now(path)).c_str());
        uint64_t before = faultsInjected();
        armFaults(faults);
        string got = vrs::DiskFile::readTextFile(path);
        armFaults(false);
        if (got != content && !(got.empty() && faultsInjected() != before)) fail("text file wrong: read %s", brief(got).c_str());
        continue;
      }
      if (int st = vrs::DiskFile::writeZstdFile(path, content)) fail("compressed file not written: error %d", st);
      string raw = now(path);
      bool cut = !raw.empty() && q.chance(0.2), more = !cut && q.chance(0.15);
      if (cut) fs::setContent(path, raw.substr(0, q.below(raw.size())));
      if (more) fs::setContent(path, raw + string(1 + q.below(300), (char)q.below(256)));
      for (int k = 0; k < 6; k++) {
        uint64_t before = faultsInjected();
        armFaults(faults && k < 4);
        const int how = (int)q.below(3);
        int st;
        string got;
        size_t want = n;
        if (how == 0) st = vrs::DiskFile::readZstdFile(path, got = q.chance(0.5) ? "old" : "");
        else if (how == 1) {
          vector<char> v(q.below(9));
          st = vrs::DiskFile::readZstdFile(path, v);
          got.assign(v.begin(), v.end());
        } else {
          if (q.chance(0.5)) want = q.chance(0.5) ? n + 1 + q.below(100) : n - std::min<size_t>(n, 1 + q.below(100));
          vector<char> v(want);
          st = vrs::DiskFile::readZstdFile(path, v.data(), want);
          got.assign(v.begin(), v.end());
        }
        armFaults(false);
        // an empty file holds no data
        if (now(path).empty() && want != n && how == 2) {
          if ((st == 0) != (want == 0) && faultsInjected() == before) fail("compressed file accepted: %zu bytes asked for in an empty file, status %d", want, st);
          continue;
        }
        if (st == 0 && want != n) fail("compressed file accepted: %zu bytes asked for, it has %zu", want, n);
        if (st == 0 && cut && !(now(path).empty() && (how != 2 || want == 0))) fail("compressed file accepted: cut or too long, %zu bytes instead of %zu", now(path).size(), raw.size());
        if (st == 0 && !cut && got != content) fail("compressed file wrong: read %s instead of %s", brief(got).c_str(), brief(content).c_str());
        if (st && want == n && !cut && !more && faultsInjected() == before) fail("compressed file refused: error %d for %zu bytes", st, n);
        if (st) probe("compressed file refused");
      }
      if (fs::openHandles()) fail("file left open: %d handles", fs::openHandles());
      nontrivial();
    }
  }
  ctx.end();
}
