// Opening and reading damaged files (C12).
#include "mkrec.h"
#include "alloc.h"
using namespace w;
using sim::fail;
using namespace sim;

// ---- memory asked for by the code under test ----
extern "C" void __sanitizer_print_stack_trace(void);
bool w::gTrackAlloc = false;
size_t w::gAllocLimit = 0;
size_t w::gAllocMax = 0;
extern "C" void __sanitizer_malloc_hook(const volatile void*, size_t size) {
  if (!gTrackAlloc || size <= gAllocMax) return;
  gAllocMax = size;
  if (size > gAllocLimit) {
    gTrackAlloc = false;
    if (gTolerateHugeAlloc) finish(kOk);
    if (sh->verbose) __sanitizer_print_stack_trace();
    fail("allocation out of proportion: %zu bytes at once, limit %zu", size, gAllocLimit);
  }
}
extern "C" void __sanitizer_free_hook(const volatile void*) {}

namespace {
using Track = AllocTrack;
using Pause = AllocPause;

struct Damage {
  string bytes;
  uint64_t lo = ~0ull, hi = 0; // damaged range, hi exclusive (everything from lo when bytes moved)
  bool moved = false;          // bytes after lo are not where they were
  void hit(uint64_t a, uint64_t b) {
    lo = std::min(lo, a);
    hi = std::max(hi, b);
  }
};
uint64_t interesting(Rng& r, uint64_t was, uint64_t fileSize) {
  switch (r.below(14)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return ~0ull;
    case 3: return 0x7fffffff;
    case 4: return 0x80000000ull;
    case 5: return was + 1;
    case 6: return was - 1;
    case 7: return fileSize;
    case 8: return fileSize + r.below(1000);
    case 9: return was * 2;
    case 10: return r.below(fileSize + 1);
    case 11: return r.below(200);
    case 12: return was ^ (1ull << r.below(64));
    default: return r.next();
  }
}
void put(Damage& d, uint64_t at, size_t n, uint64_t v) {
  if (at + n > d.bytes.size()) return;
  if (memcmp(&d.bytes[at], &v, n) == 0) return;
  memcpy(&d.bytes[at], &v, n);
  d.hit(at, at + n);
}
void damageOnce(Rng& r, Damage& d, const vector<uint64_t>& heads, uint64_t lo, uint64_t hi, bool inPlaceOnly) {
  if (d.bytes.empty() || lo >= hi || hi > d.bytes.size()) return;
  auto pos = [&] { return lo + r.below(hi - lo); };
  int k = (int)r.below(inPlaceOnly ? 12 : 15);
  switch (k) {
    case 0: case 1: { // bit flips
      int n = 1 + (int)r.below(r.chance(0.2) ? 30 : 3);
      for (int i = 0; i < n; i++) { uint64_t p = pos(); d.bytes[p] ^= (char)(1 << r.below(8)); d.hit(p, p + 1); }
      recordFault(fBitFlip);
      return;
    }
    case 2: { uint64_t p = pos(); d.bytes[p] = (char)r.next(); d.hit(p, p + 1); recordFault(fBitFlip); return; }
    case 3: { // garbage or constant block
      uint64_t p = pos(), n = std::min<uint64_t>(hi - p, 1 + r.below(r.chance(0.5) ? 16 : 400));
      char c = (char)r.below(256);
      bool rnd = r.chance(0.5), zero = r.chance(0.4);
      for (uint64_t i = 0; i < n; i++) d.bytes[p + i] = zero ? 0 : rnd ? (char)r.next() : c;
      d.hit(p, p + n);
      recordFault(fGarbage);
      return;
    }
    case 4: { // a piece of the file copied elsewhere, as with misdirected writes
      uint64_t p = pos(), n = std::min<uint64_t>(hi - p, 1 + r.below(600)), q = r.below(d.bytes.size() - n + 1);
      if (heads.size() && r.chance(0.5)) { q = r.pick(heads); if (q >= d.bytes.size()) return; n = std::min<uint64_t>(n, d.bytes.size() - q); if (r.chance(0.5)) { uint64_t h = r.pick(heads); if (h >= lo && h + n <= hi) p = h; } }
      string s = d.bytes.substr(q, n);
      memcpy(&d.bytes[p], s.data(), s.size());
      d.hit(p, p + n);
      recordFault(fGarbage);
      return;
    }
    case 5: case 6: { // a number somewhere
      size_t n = r.chance(0.7) ? 4 : 8;
      uint64_t p = pos(), v = 0;
      if (p + n > hi) return;
      memcpy(&v, &d.bytes[p], n);
      put(d, p, n, interesting(r, v, d.bytes.size()));
      recordFault(fGarbage);
      return;
    }
    case 7: case 8: case 9: case 10: case 11: { // a field of a header
      static const struct { int off, n; } kFile[] = {{8, 8}, {16, 4}, {20, 4}, {24, 8}, {32, 8}, {40, 8}, {48, 8}, {76, 4}};
      static const struct { int off, n; } kRec[] = {{0, 4}, {0, 4}, {4, 4}, {8, 4}, {12, 4}, {16, 8}, {24, 2}, {26, 1}, {27, 1}, {28, 4}, {28, 4}, {32, 4}, {36, 4}, {40, 4}};
      uint64_t at;
      size_t n;
      if (r.chance(0.25) && lo == 0) { auto& f = kFile[r.below(8)]; at = (uint64_t)f.off; n = (size_t)f.n; }
      else if (heads.size()) { auto& f = kRec[r.below(14)]; at = r.pick(heads) + (uint64_t)f.off; n = (size_t)f.n; }
      else return;
      if (at < lo || at + n > hi) return;
      uint64_t v = 0;
      memcpy(&v, &d.bytes[at], n);
      put(d, at, n, r.chance(0.3) && n == 1 ? r.below(8) : interesting(r, v, d.bytes.size()));
      recordFault(fGarbage);
      return;
    }
    case 12: { uint64_t p = pos(); d.bytes.resize(p); d.hit(p, ~0ull); d.moved = true; recordFault(fTruncateFile); return; }
    case 13: { // bytes lost
      uint64_t p = pos(), n = std::min<uint64_t>(d.bytes.size() - p, 1 + r.below(300));
      d.bytes.erase(p, n);
      d.hit(p, ~0ull);
      d.moved = true;
      recordFault(fGarbage);
      return;
    }
    default: { // bytes added
      uint64_t p = pos(), n = 1 + r.below(300);
      string s(n, 0);
      for (auto& c : s) c = (char)r.next();
      d.bytes.insert(p, s);
      d.hit(p, ~0ull);
      d.moved = true;
      recordFault(fGarbage);
    }
  }
}
// never asks for more than it should
class CautiousPlayer : public vrs::StreamPlayer {
 public:
  size_t limit;
  string data;
  bool done = false;
  uint32_t ver = 0;
  explicit CautiousPlayer(size_t l) : limit(l) {}
  bool processRecordHeader(const vrs::CurrentRecord& r, vrs::DataReference& ref) override {
    Pause p;
    done = false;
    ver = r.formatVersion;
    if (r.recordSize > limit) return false;
    data.assign(r.recordSize, '\xEE');
    ref.useRawData(data.data(), (uint32_t)data.size());
    return true;
  }
  void processRecord(const vrs::CurrentRecord& r, uint32_t n) override { done = n == r.recordSize; }
};
void readDamaged(Ctx& ctx, Rng& r, const Recorded& x, const Damage& d, bool userOnly, bool fix, const char* where) {
  vrs::RecordFileReader rd;
  size_t total = d.bytes.size();
  Track track(total);
  int st = rd.openFile(x.path, fix);
  if (userOnly && st) fail("undamaged description and index, but the file can't be opened %s: %d", where, st);
  if (st) {
    probe("damaged file rejected");
    if (rd.isOpened()) fail("file open after a failed open");
    return;
  }
  probe(rd.hasIndex() ? "damaged file opened with its index" : "damaged file opened, index rebuilt");
  auto& ix = rd.getIndex();
  if (userOnly && x.indexed && ix.size() != x.ref.recs.size()) fail("record count differs %s: %zu instead of %zu though the index is intact", where, ix.size(), x.ref.recs.size());
  map<int64_t, const Got*> byOffset;
  map<int64_t, int64_t> endOf;
  {
    Pause p;
    vector<int64_t> offs;
    for (auto& g : x.ref.recs) { byOffset[g.offset] = &g; offs.push_back(g.offset); }
    std::sort(offs.begin(), offs.end());
    for (size_t i = 0; i < offs.size(); i++) endOf[offs[i]] = i + 1 < offs.size() ? offs[i + 1] : INT64_MAX;
  }
  uint64_t delivered = 0, refused = 0, same = 0;
  CautiousPlayer p(total + (4u << 20));
  size_t n = ix.size();
  set<int64_t> okAt;
  for (size_t i = 0; i < n && i < 3000; i++) {
    const auto& rec = ix[i];
    p.done = false;
    int err = rd.readRecord(rec, &p);
    auto it = byOffset.find(rec.fileOffset);
    bool known = it != byOffset.end() && it->second->sid == rec.streamId && it->second->type == rec.recordType && it->second->ts == rec.timestamp;
    // records before the damage, and after it when nothing moved
    bool clean = known && d.lo >= 80 && ((uint64_t)endOf[rec.fileOffset] <= d.lo || (!d.moved && (uint64_t)rec.fileOffset >= d.hi));
    if (known && endOf[rec.fileOffset] == INT64_MAX) clean = clean && (uint64_t)rec.fileOffset + 48 + it->second->data.size() * 2 < d.lo; // the last one may be compressed: size not known here
    if (err == 0 && p.done) {
      delivered++;
      if (clean && p.data != it->second->data) fail("undamaged record delivered altered %s: %s", where, it->second->asRec().str().c_str());
      if (clean && p.ver != it->second->ver) fail("undamaged record delivered altered %s: format version %u instead of %u", where, p.ver, it->second->ver);
      if (clean) { same++; Pause q; okAt.insert(rec.fileOffset); }
    } else {
      refused++;
      if (userOnly && clean && it->second->err == 0) fail("undamaged record refused %s: error %d at %ld..%ld damage %ld..%ld reading %s", where, err, (long)rec.fileOffset, (long)endOf[rec.fileOffset], (long)d.lo, (long)d.hi, it->second->asRec().str().c_str());
    }
  }
  if (userOnly && x.indexed) {
    for (auto& g : x.ref.recs)
      if (((uint64_t)endOf[g.offset] <= d.lo || (!d.moved && (uint64_t)g.offset >= d.hi && endOf[g.offset] != INT64_MAX)) && !okAt.count(g.offset)) fail("undamaged record not listed %s: %s", where, g.asRec().str().c_str());
  }
  // other ways in
  if (r.chance(0.4)) {
    for (auto id : rd.getStreams()) {
      rd.getRecord(id, Record::Type::DATA, (uint32_t)r.below(5));
      rd.getLastRecord(id, Record::Type::CONFIGURATION);
      rd.getRecordByTime(id, 1000 * r.unit());
      rd.getTags(id);
      rd.getFlavor(id);
      rd.mightContainImages(id);
      rd.mightContainAudio(id);
      rd.setStreamPlayer(id, &p);
    }
    if (n < 3000) rd.readAllRecords();
    if (n) rd.getRecordSize((uint32_t)r.below(n), r.chance(0.5));
  }
  if (same) probe("undamaged records delivered from a damaged file");
  if (refused) probe("damaged records refused");
  rd.closeFile();
}
void corrupt(Ctx& ctx, bool userOnly) {
  Rng& r = ctx.rng;
  ctx.begin();
  {
    MkOpts o;
    o.maxOps = 18;
    o.big = 1500;
    Recorded x = makeRecording(ctx, o);
    initFaults(ctx.seed);
    string good = concatChunks(x.paths);
    vector<size_t> sizes;
    for (auto& p : x.paths) sizes.push_back(fs::content(p).size());
    // where the records' headers are
    RawFile raw = rawParse(good, x.split ? (int64_t)sizes[0] : -1);
    vector<uint64_t> heads;
    for (auto& u : raw.user) heads.push_back(u.off);
    uint64_t userLo = heads.empty() ? good.size() : heads.front(), userHi = raw.endOfUser;
    if (raw.descOff > 0) heads.push_back((uint64_t)raw.descOff);
    if (raw.indexOff > 0 && (uint64_t)raw.indexOff < good.size()) heads.push_back((uint64_t)raw.indexOff);
    int rounds = ctx.thorough ? 10 : 6;
    for (int k = 0; k < rounds; k++) {
      if (!ctx.op((uint32_t)k)) continue;
      Rng q = ctx.opRng((uint64_t)k);
      Damage d;
      d.bytes = good;
      int n = q.chance(0.6) ? 1 : 1 + (int)q.below(5);
      for (int i = 0; i < n; i++) {
        if (userOnly) damageOnce(q, d, heads, userLo, userHi, true);
        else if (q.chance(0.45)) { // description, index and headers matter most
          uint64_t lo = 0, hi = std::min<uint64_t>(d.bytes.size(), x.split ? sizes[0] : userLo);
          if (!x.split && raw.indexOff > 0 && q.chance(0.4)) { lo = std::min<uint64_t>((uint64_t)raw.indexOff, d.bytes.size()); hi = d.bytes.size(); }
          damageOnce(q, d, heads, lo, hi, false);
        } else damageOnce(q, d, heads, 0, d.bytes.size(), false);
      }
      if (d.lo == ~0ull && !userOnly) continue;
      // store, with the same chunks
      size_t at = 0;
      for (size_t c = 0; c < x.paths.size(); c++) {
        size_t len = c + 1 == x.paths.size() ? std::string::npos : sizes[c];
        fs::setContent(x.paths[c], at <= d.bytes.size() ? d.bytes.substr(at, len) : string());
        at += sizes[c];
      }
      if (!userOnly && x.paths.size() > 1 && q.chance(0.1)) { // a chunk lost or swapped
        size_t a = q.below(x.paths.size()), b = q.below(x.paths.size());
        string A = fs::content(x.paths[a]), B = fs::content(x.paths[b]);
        fs::setContent(x.paths[a], B);
        if (q.chance(0.5)) fs::setContent(x.paths[b], A);
        d.lo = 0;
        d.hi = ~0ull;
        d.moved = true;
        recordFault(fGarbage);
      }
      readDamaged(ctx, q, x, d, userOnly, false, "in a damaged file");
      if (q.chance(0.35)) {
        Damage e = d;
        if (!x.indexed || !userOnly) { e.lo = 0; e.hi = ~0ull; } // offsets may change
        readDamaged(ctx, q, x, e, userOnly && x.indexed, true, "in a damaged file opened for repair");
        readDamaged(ctx, q, x, e, userOnly && x.indexed, false, "in a damaged file after a repair");
      }
      for (auto& p : fs::listDir("/sim/tmp")) fs::erase(p);
      nontrivial();
      hist(hashStr(d.bytes));
    }
    if (fs::openHandles()) fail("file descriptors left open: %d", fs::openHandles());
  }
  ctx.end();
}
} // namespace
SCENARIO("C12", corrupt_any, 3) { corrupt(ctx, false); }
SCENARIO("C12", corrupt_user, 1) { corrupt(ctx, true); }
