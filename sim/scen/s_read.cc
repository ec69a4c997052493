// Reading while reads, seeks and opens fail (C11).
#include "mkrec.h"
#include "faultpick.h"
using namespace w;
using sim::fail;
using namespace sim;

namespace {
// asks for part of each record, or for all of it in two buffers, or reads on its own
class PartPlayer : public vrs::StreamPlayer {
 public:
  enum { kAll, kTwo, kHead, kNone, kOwn };
  int how = kAll;
  size_t want = 0;
  string a, b;
  bool header = false, done = false;
  uint32_t readSize = 0;
  int ownError = 0;
  bool processRecordHeader(const vrs::CurrentRecord& r, vrs::DataReference& ref) override {
    header = true;
    done = false;
    ownError = 0;
    a.clear();
    b.clear();
    size_t n = std::min<size_t>(want, r.recordSize);
    switch (how) {
      case kAll: a.assign(r.recordSize, '\xEE'); ref.useRawData(a.data(), (uint32_t)a.size()); return true;
      case kTwo:
        a.assign(n, '\xEE');
        b.assign(r.recordSize - n, '\xEE');
        ref.useRawData(a.data(), (uint32_t)a.size(), b.data(), (uint32_t)b.size());
        return true;
      case kHead: a.assign(n, '\xEE'); ref.useRawData(a.data(), (uint32_t)a.size()); return true;
      case kOwn: return true;
      default: return false;
    }
  }
  void processRecord(const vrs::CurrentRecord& r, uint32_t rs) override {
    done = true;
    readSize = rs;
    if (how != kOwn) return;
    // in pieces
    size_t left = r.recordSize, step = std::max<size_t>(1, want);
    while (left > 0 && ownError == 0) {
      size_t n = std::min(step, left);
      string piece(n, '\xEE');
      vrs::DataReference d(piece.data(), (uint32_t)n);
      uint32_t got = 0;
      ownError = r.reader->read(d, got);
      if (ownError == 0) {
        if (got != n) fail("partial data delivered as a success: %u of %zu bytes", got, n);
        a += piece;
        left -= n;
        if (r.reader->getUnreadBytes() != left) fail("unread bytes differ: %u instead of %zu", r.reader->getUnreadBytes(), left);
      }
    }
  }
};
string statusStr(int st) { return std::to_string(st) + " (" + vrs::errorCodeToMessage(st) + ")"; }

struct Reading {
  Ctx& ctx;
  Recorded& x;
  vrs::RecordFileReader& rd;
  uint64_t okReads = 0, badReads = 0;

  void checkOpen() {
    if (!rd.isOpened()) fail("file not open after a successful open");
    FileView v;
    v.tags = rd.getTags();
    v.streams = rd.getStreams();
    for (auto id : v.streams) v.streamTags[id] = rd.getTags(id);
    auto& ix = rd.getIndex();
    if (ix.size() != x.ref.recs.size()) fail("record count differs after a successful open: %zu instead of %zu", ix.size(), x.ref.recs.size());
    for (size_t i = 0; i < ix.size(); i++) {
      auto& b = x.ref.recs[i];
      if (ix[i].streamId != b.sid || ix[i].recordType != b.type || ix[i].timestamp != b.ts || ix[i].fileOffset != b.offset) fail("index differs after a successful open: entry %zu", i);
    }
    if (v.tags != x.ref.tags) fail("file tags differ after a successful open: %zu tags instead of %zu", v.tags.size(), x.ref.tags.size());
    if (v.streams != x.ref.streams) fail("streams differ after a successful open: %zu instead of %zu", v.streams.size(), x.ref.streams.size());
    for (auto& s : x.ref.streamTags)
      if (v.streamTags[s.first].user != s.second.user || v.streamTags[s.first].vrs != s.second.vrs) fail("stream tags differ after a successful open: stream %s", s.first.getNumericName().c_str());
  }
  void readOne(Rng& q, size_t i) {
    auto& ref = x.ref.recs[i];
    PartPlayer p;
    static const int hows[] = {PartPlayer::kAll, PartPlayer::kAll, PartPlayer::kAll, PartPlayer::kTwo, PartPlayer::kTwo, PartPlayer::kHead, PartPlayer::kNone, PartPlayer::kOwn};
    p.how = hows[q.below(8)];
    p.want = q.chance(0.2) ? 0 : q.chance(0.3) ? ref.data.size() : q.below(ref.data.size() + 20);
    if (p.how == PartPlayer::kOwn && p.want < ref.data.size() / 20) p.want = ref.data.size() / 20;
    uint64_t before = faultsInjected();
    int st = rd.readRecord(rd.getIndex()[i], &p);
    bool faulted = faultsInjected() != before;
    if (st == 0 && p.how == PartPlayer::kOwn && p.done) st = p.ownError;
    if (st) {
      badReads++;
      if (!faulted) fail("status: reading record %zu returned %s with no fault", i, statusStr(st).c_str());
      return;
    }
    okReads++;
    if (!p.header) fail("record not delivered though the read succeeded: record %zu", i);
    if (p.how == PartPlayer::kNone) return;
    if (!p.done) fail("record not delivered though the read succeeded: record %zu", i);
    size_t n = p.how == PartPlayer::kHead ? std::min(p.want, ref.data.size()) : ref.data.size();
    if (p.how != PartPlayer::kOwn && p.readSize != n) fail("partial data delivered as a success: %u of %zu bytes of record %zu", p.readSize, n, i);
    string got = p.a + p.b;
    if (got != ref.data.substr(0, n)) fail("altered data delivered as a success: record %zu, %zu bytes", i, n);
    if (faulted) probe("read succeeded in spite of a fault");
  }
  void readAll(Rng& q) {
    Collector c;
    map<int64_t, string> got;
    class Multi : public vrs::StreamPlayer {
     public:
      map<int64_t, string> got;
      string buf;
      bool processRecordHeader(const vrs::CurrentRecord& r, vrs::DataReference& ref) override { buf.assign(r.recordSize, '\xEE'); ref.useRawData(buf.data(), (uint32_t)buf.size()); return true; }
      void processRecord(const vrs::CurrentRecord& r, uint32_t n) override { if (n != r.recordSize) fail("partial data delivered as a success: %u of %u bytes", n, r.recordSize); got[r.recordInfo->fileOffset] = buf; }
    } m;
    for (auto id : rd.getStreams()) rd.setStreamPlayer(id, &m);
    uint64_t before = faultsInjected();
    int st;
    bool configs = q.chance(0.3);
    if (configs) {
      bool any = false;
      for (auto& g : x.ref.recs) any |= g.type == Record::Type::CONFIGURATION;
      bool ok = rd.readFirstConfigurationRecords(q.chance(0.5) ? &m : nullptr);
      st = ok == any ? 0 : 1;
      set<StreamId> seen;
      if (st == 0)
        for (auto& g : x.ref.recs)
          if (g.type == Record::Type::CONFIGURATION && seen.insert(g.sid).second && !m.got.count(g.offset)) fail("configuration record not delivered though reading them succeeded: stream %s", g.sid.getNumericName().c_str());
    } else {
      st = rd.readAllRecords();
      if (st == 0 && m.got.size() != x.ref.recs.size()) fail("records not delivered though reading all of them succeeded: %zu of %zu", m.got.size(), x.ref.recs.size());
    }
    rd.clearStreamPlayers();
    if (st && faultsInjected() == before) fail("status: reading %s returned %s with no fault", configs ? "configurations" : "all records", statusStr(st).c_str());
    for (auto& g : x.ref.recs) {
      auto it = m.got.find(g.offset);
      if (it != m.got.end() && it->second != g.data) fail("altered data delivered as a success: record at %ld", (long)g.offset);
    }
  }
};
void readFaults(Ctx& ctx, bool faultsAtOpen, bool async) {
  Rng& r = ctx.rng;
  pickReadFaults(ctx);
  // recording runs without faults
  ctx.begin();
  {
    MkOpts o;
    o.maxOps = 18;
    Recorded x = makeRecording(ctx, o);
    initFaults(ctx.seed);
    faultCfg().fromIo = faultCfg().toIo == ~0ull ? 0 : ioCount() + faultCfg().fromIo / 2;
    if (faultCfg().toIo != ~0ull) faultCfg().toIo = faultCfg().fromIo + 1 + r.below(100);
    vrs::RecordFileReader rd;
    string u = x.path;
    if (async) u = "diskfile:" + x.path + "?" + pickEngine(r);
    if (async) rd.setFileHandler(std::make_unique<vrs::AsyncDiskFile>());
    Reading g{ctx, x, rd};
    bool open = false;
    armFaults(faultsAtOpen);
    for (int k = 0; k < 4 && !open; k++) {
      uint64_t before = faultsInjected();
      bool fix = r.chance(0.1) && !async;
      int st = rd.openFile(x.path, fix);
      if (st == 0) {
        open = true;
        if (fix) { // offsets may have changed if it was repaired
          armFaults(false);
          FileView v = readFile(x.path);
          sameView(v, x.ref, "after a repair under read faults", false);
          x.ref = v;
          x.indexed = true;
          armFaults(faultsAtOpen);
        }
        g.checkOpen();
        if (faultsInjected() != before) probe("opened in spite of a fault");
      } else {
        if (faultsInjected() == before) fail("status: openFile returned %s with no fault", statusStr(st).c_str());
        probe("open failed");
        if (rd.isOpened()) fail("file open after a failed open");
        if (rd.getRecordCount()) fail("records listed after a failed open: %u", rd.getRecordCount());
        if (fix) {
          armFaults(false);
          FileView v = readFile(x.path);
          sameView(v, x.ref, "after a failed repair under read faults", false);
          x.ref = v;
          x.indexed = v.hasIndex;
          armFaults(faultsAtOpen);
        }
        if (r.chance(0.3)) rd.closeFile();
        if (async && r.chance(0.5)) rd.setFileHandler(std::make_unique<vrs::AsyncDiskFile>());
      }
    }
    if (!open) {
      armFaults(false);
      if (int st = rd.openFile(x.path)) fail("status: openFile returned %s once the fault is gone", statusStr(st).c_str());
      g.checkOpen();
    }
    armFaults(true);
    int n = 2 + (int)r.below(ctx.thorough ? 50 : 24);
    size_t count = x.ref.recs.size();
    size_t next = 0;
    for (int k = 0; k < n && count; k++) {
      if (!ctx.op(100 + (uint32_t)k)) continue;
      Rng q = ctx.opRng(100 + k);
      if (q.chance(0.08)) { g.readAll(q); continue; }
      if (q.chance(0.6)) next = q.below(count); // else the next one
      g.readOne(q, next % count);
      next++;
    }
    armFaults(false);
    // the fault is gone
    Rng q = ctx.opRng(1);
    for (size_t k = 0; k < count && k < 12; k++) g.readOne(q, q.below(count));
    {
      FileView v;
      readInto(rd, v);
      sameView(v, x.ref, "with the same reader once the fault is gone");
    }
    if (g.badReads) probe("reading goes on after an error");
    armFaults(r.chance(0.2));
    int st = rd.closeFile();
    (void)st;
    armFaults(false);
    sameView(readFile(x.path), x.ref, "with a new reader once the fault is gone");
    if (fs::openHandles()) fail("file descriptors left open: %d", fs::openHandles());
    if (faultsInjected() && count > 2) nontrivial();
    hist(g.okReads * 1000 + g.badReads);
  }
  ctx.end();
}
} // namespace
SCENARIO("C11", read_faults, 2) { readFaults(ctx, false, false); }
SCENARIO("C11", read_faults_open, 3) { readFaults(ctx, true, false); }
SCENARIO("C11", read_faults_async, 0.7) { readFaults(ctx, ctx.rng.chance(0.5), true); }

// the end of the file is missing: incomplete copy or download, truncated while open
SCENARIO("C11", read_truncated, 0.7) {
  ctx.begin();
  Rng& r = ctx.rng;
  MkOpts o;
  o.maxOps = r.chance(0.3) ? 50 : 20;
  o.big = 400;
  Recorded x = makeRecording(ctx, o);
  string last = x.paths.back(), good = sim::fs::content(last);
  for (int k = 0, n = 2 + (int)r.below(ctx.thorough ? 10 : 4); k < n; k++) {
    Rng q = ctx.opRng((uint32_t)k);
    if (!ctx.op((uint32_t)k)) continue;
    size_t keep = q.below(good.size());
    if (q.chance(0.5) && !x.ref.recs.empty()) { // where a record of the last chunk starts or ends
      int64_t off = q.pick(x.ref.recs).offset, before = 0;
      for (size_t i = 0; i + 1 < x.paths.size(); i++) before += (int64_t)sim::fs::content(x.paths[i]).size();
      off += (int64_t)(q.chance(0.7) ? 0 : q.below(60));
      if (off > before && off - before < (int64_t)good.size()) keep = (size_t)(off - before);
    }
    bool before = q.chance(0.6);
    sim::fs::setContent(last, before ? good.substr(0, keep) : good);
    recordFault(fTruncateFile);
    vrs::RecordFileReader rd;
    int st = rd.openFile(x.path);
    if (st) {
      if (!before) fail("unreadable: opening returned %s", statusStr(st).c_str());
      probe("truncated file refused");
      continue;
    }
    if (!before) sim::fs::setContent(last, good.substr(0, keep));
    map<int64_t, size_t> byOff;
    for (size_t i = 0; i < x.ref.recs.size(); i++) byOff[x.ref.recs[i].offset] = i;
    auto& ix = rd.getIndex();
    size_t ok = 0, bad = 0;
    for (size_t k2 = 0, m = q.chance(0.5) ? ix.size() : 8; k2 < m && !ix.empty(); k2++) {
      auto& ri = ix[m == ix.size() ? k2 : q.below(ix.size())];
      auto it = byOff.find(ri.fileOffset);
      if (it == byOff.end()) fail("truncated file: a record was never recorded at offset %lld", (long long)ri.fileOffset);
      auto& g = x.ref.recs[it->second];
      if (ri.streamId != g.sid || ri.recordType != g.type || ri.timestamp != g.ts) fail("truncated file: record %zu is described differently", it->second);
      PartPlayer p;
      static const int hows[] = {PartPlayer::kAll, PartPlayer::kTwo, PartPlayer::kHead, PartPlayer::kNone, PartPlayer::kOwn};
      p.how = hows[q.below(5)];
      p.want = q.below(g.data.size() + 20);
      st = rd.readRecord(ri, &p);
      if (st == 0 && p.how == PartPlayer::kOwn && p.done) st = p.ownError;
      if (st) { bad++; continue; }
      if (!p.header) fail("record not delivered though the read succeeded: record %zu of a truncated file", it->second);
      if (p.how == PartPlayer::kNone) continue;
      ok++;
      size_t n = p.how == PartPlayer::kHead ? std::min(p.want, g.data.size()) : g.data.size();
      if (p.a + p.b != g.data.substr(0, n)) fail("altered data delivered as a success: record %zu of a truncated file", it->second);
    }
    if (ok && bad) nontrivial();
    if (bad) probe("records missing at the end reported");
  }
  sim::fs::setContent(last, good);
  ctx.end();
}
