#include "common.h"
#include <lz4frame.h>
#include <zstd.h>
#include <logging/Log.h>
#include <vrs/TagsRecord.h>
#include <algorithm>

namespace w {
using sim::fail;
using sim::logf;

const RecordableTypeId kTypes[6] = {
    RecordableTypeId::UnitTest1, RecordableTypeId::UnitTest2, RecordableTypeId::SampleDevice,
    RecordableTypeId::ForwardCameraRecordableClass, RecordableTypeId::UnitTestRecordableClass, RecordableTypeId::SampleDeviceRecordableClass};

string strTs(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }

string makePayload(uint64_t id, size_t size, int style) {
  string s(size, 0);
  Rng r(id * 77 + 5);
  if (style == kRandomBytes) {
    size_t i = 0;
    for (; i + 8 <= size; i += 8) { uint64_t v = r.next(); memcpy(&s[i], &v, 8); }
    for (; i < size; i++) s[i] = (char)r.next();
  } else if (style == kCompressible) {
    char base = (char)('a' + id % 26);
    for (size_t i = 0; i < size; i++) s[i] = (char)(base + (i / 7) % 5);
  } else {
    size_t i = 0;
    while (i < size) {
      uint64_t v = r.next();
      size_t n = 1 + (v >> 8) % 40;
      bool rnd = v & 1;
      for (size_t k = 0; k < n && i < size; k++, i++) s[i] = rnd ? (char)(v >> (8 * (k % 8))) ^ (char)k : (char)('0' + id % 10);
    }
  }
  if (size >= 8) memcpy(&s[0], &id, 8);
  else if (size > 0) memcpy(&s[0], &id, size);
  return s;
}
size_t pickSize(Rng& r, size_t big) {
  switch (r.below(10)) {
    case 0: return 0;
    case 1: return r.below(8);
    case 2: case 3: return r.below(64);
    case 4: case 5: return 200 + r.below(120);
    case 6: return 990 + r.below(70);   // around the unlock-to-copy limit
    case 7: return r.below(5000);
    case 8: return 4096 * (1 + r.below(4)) - 40 + r.below(80);
    default: return r.below(big + 1);
  }
}
string MRec::str() const {
  char b[200];
  snprintf(b, sizeof b, "stream %s type %s ts %.17g version %u size %zu hash %lx", sid.getNumericName().c_str(), vrs::toString(type).c_str(), ts, ver, data.size(), (unsigned long)hashStr(data));
  return b;
}

TestStream::TestStream(Model& m, RecordableTypeId type, const string& flavor, size_t cs) : Recordable(type, flavor), model(m), cfgSize(cs) {}
size_t TestStream::make(double ts, Record::Type type, uint32_t ver, const string& data) {
  MRec r;
  r.sid = getStreamId();
  r.type = type;
  r.ts = ts;
  r.ver = ver;
  r.data = data;
  sim::noPreempt(1);
  r.begin = sim::stepCount();
  size_t i = model.recs.size();
  model.add(std::move(r));
  model.recs[i].end = ~0ull;
  sim::noPreempt(-1);
  createRecord(ts, type, ver, vrs::DataSource(vrs::DataSourceChunk(data.data(), data.size())));
  model.recs[i].end = sim::stepCount();
  return i;
}
namespace {
class Direct : public vrs::DirectWriteRecordData {
 public:
  explicit Direct(const string& s) : data(s) {}
  size_t getDataSize() const override { return data.size(); }
  int write(vrs::WriteFileHandler& f) const override {
    size_t half = data.size() / 2;
    int e = half ? f.write(data.data(), half) : 0;
    return e ? e : f.write(data.data() + half, data.size() - half);
  }
  string data;
};
} // namespace
size_t TestStream::makeDirect(double ts, Record::Type type, uint32_t ver, const string& head, const string& tail) {
  MRec r;
  r.sid = getStreamId();
  r.type = type;
  r.ts = ts;
  r.ver = ver;
  r.data = head + tail;
  sim::noPreempt(1);
  r.begin = sim::stepCount();
  size_t i = model.recs.size();
  model.add(std::move(r));
  model.recs[i].end = ~0ull;
  sim::noPreempt(-1);
  createUncompressedRecord(ts, type, ver, vrs::DataSource(vrs::DataSourceChunk(head.data(), head.size())), std::make_unique<Direct>(tail));
  model.recs[i].end = sim::stepCount();
  return i;
}
const Record* TestStream::createConfigurationRecord() {
  configs++;
  uint64_t id = model.nextId++;
  make(model.clock ? model.clock() : model.configTs, Record::Type::CONFIGURATION, 1, makePayload(id, cfgSize, kCompressible));
  return nullptr;
}
const Record* TestStream::createStateRecord() {
  states++;
  uint64_t id = model.nextId++;
  make(model.clock ? model.clock() : model.configTs, Record::Type::STATE, 2, makePayload(id, cfgSize / 2, kCompressible));
  return nullptr;
}
vrs::CompressionPreset pickPreset(Rng& r) {
  using P = vrs::CompressionPreset;
  static const P v[] = {P::None, P::None, P::Lz4Fast, P::Lz4Fast, P::Lz4Tight, P::ZstdFaster, P::ZstdFast, P::ZstdLight, P::ZstdMedium, P::Undefined};
  return v[r.below(10)];
}

bool Collector::processRecordHeader(const vrs::CurrentRecord& r, vrs::DataReference& ref) {
  headers++;
  buf.assign(r.recordSize, (char)0xEE);
  ref.useVector(buf);
  last = Got();
  last.sid = r.streamId;
  last.type = r.recordType;
  last.ts = r.timestamp;
  last.ver = r.formatVersion;
  readSize = 0;
  return true;
}
void Collector::processRecord(const vrs::CurrentRecord& r, uint32_t rs) {
  records++;
  readSize = rs;
  last.seen = true;
  last.data.assign(buf.data(), buf.size());
  if (r.streamId != last.sid || r.timestamp != last.ts || r.recordType != last.type) last.seen = false;
}

void readInto(vrs::RecordFileReader& r, FileView& v) {
  v.hasIndex = r.hasIndex();
  v.tags = r.getTags();
  v.streams = r.getStreams();
  for (auto id : v.streams) v.streamTags[id] = r.getTags(id);
  Collector c;
  for (auto id : v.streams) r.setStreamPlayer(id, &c);
  for (const auto& info : r.getIndex()) {
    Got g;
    c.last = Got();
    c.readSize = 0;
    int e = r.readRecord(info);
    g = c.last;
    g.err = e;
    if (!g.seen && e == 0) g.err = -1; // no data delivered
    if (e == 0 && g.seen && c.readSize != g.data.size()) g.err = -2;
    g.offset = info.fileOffset;
    if (!g.seen) {
      g.sid = info.streamId;
      g.type = info.recordType;
      g.ts = info.timestamp;
    } else if (g.sid != info.streamId || g.type != info.recordType || g.ts != info.timestamp) {
      g.err = -3; // the index entry and the record header disagree
    }
    if (g.err) v.readErrors++;
    v.recs.push_back(std::move(g));
  }
}
FileView readFile(const string& path, bool autoFix) {
  FileView v;
  vrs::RecordFileReader r;
  v.openError = r.openFile(path, autoFix);
  if (v.openError == 0) readInto(r, v);
  r.closeFile();
  return v;
}
FileView readSpec(const vrs::FileSpec& spec, bool autoFix) {
  FileView v;
  vrs::RecordFileReader r;
  v.openError = r.openFile(spec, autoFix);
  if (v.openError == 0) readInto(r, v);
  r.closeFile();
  return v;
}

void checkContents(const FileView& v, const vector<const MRec*>& must, const vector<const MRec*>& may, const char* where) {
  if (v.openError) fail("unreadable %s: openFile returned %d (%s)", where, v.openError, vrs::errorCodeToMessage(v.openError).c_str());
  map<string, std::pair<int, int>> want; // must count, may count
  map<string, const MRec*> sample;
  for (auto m : must) { string k = m->key(); want[k].first++; sample[k] = m; }
  for (auto m : may) { string k = m->key(); want[k].second++; sample[k] = m; }
  map<string, int> got;
  for (auto& g : v.recs) {
    MRec m = g.asRec();
    if (g.err) fail("record unreadable %s: %s error %d (%s) offset %ld", where, m.str().c_str(), g.err, vrs::errorCodeToMessage(g.err).c_str(), (long)g.offset);
    if (g.type == Record::Type::TAGS) continue;
    string k = m.key();
    if (!want.count(k)) fail("unexpected record %s: %s was never recorded with that content", where, m.str().c_str());
    got[k]++;
    sim::hist(hashStr(k));
  }
  for (auto& e : want) {
    int n = got.count(e.first) ? got[e.first] : 0;
    if (n < e.second.first) fail("record lost %s: %s found %d of %d", where, sample[e.first]->str().c_str(), n, e.second.first);
    if (n > e.second.first + e.second.second) fail("record duplicated %s: %s found %d of %d", where, sample[e.first]->str().c_str(), n, e.second.first + e.second.second);
  }
}
void checkIndexOrder(const FileView& v, const char* where) {
  for (size_t i = 1; i < v.recs.size(); i++) {
    auto &a = v.recs[i - 1], &b = v.recs[i];
    bool ok = a.ts < b.ts || (a.ts == b.ts && (a.sid < b.sid || (a.sid == b.sid && a.offset < b.offset)));
    if (!ok)
      fail("index out of order %s: entry %zu (ts %.17g stream %s offset %ld) then (ts %.17g stream %s offset %ld)", where, i, a.ts,
           a.sid.getNumericName().c_str(), (long)a.offset, b.ts, b.sid.getNumericName().c_str(), (long)b.offset);
  }
}
// same stream, same timestamp: creation order, when one creation finished before the other began
void checkCreationOrder(const FileView& v, const vector<MRec>& model, const char* where) {
  map<string, const MRec*> by;
  set<string> dup;
  for (auto& m : model) { string k = m.key(); if (by.count(k)) dup.insert(k); by[k] = &m; }
  const MRec* prev = nullptr;
  StreamId psid;
  map<StreamId, vector<const MRec*>> run;
  double ts = 0;
  for (auto& g : v.recs) {
    if (g.type == Record::Type::TAGS) continue;
    string k = g.asRec().key();
    if (dup.count(k) || !by.count(k)) continue;
    const MRec* m = by[k];
    auto& l = run[g.sid];
    if (!l.empty() && l.back()->ts != m->ts) l.clear();
    for (auto p : l)
      if (m->end < p->begin) fail("creation order lost %s: %s was created before %s but is indexed after it", where, m->str().c_str(), p->str().c_str());
    l.push_back(m);
  }
  (void)prev; (void)psid; (void)ts;
}

// ---------------- raw parser ----------------
#pragma pack(push, 1)
struct RHead { uint32_t size, prev; int32_t typeId; uint32_t ver; double ts; uint16_t inst; uint8_t type, comp; uint32_t usize; };
struct FHead { uint32_t m1, m2; uint64_t id; uint32_t hs, rhs; int64_t idx, desc, first; uint64_t f2, f3, f4; uint32_t m3, ver; };
#pragma pack(pop)

static bool decompress(const RHead& h, const char* p, size_t n, string& out) {
  if (h.comp == 0) { out.assign(p, n); return h.usize == 0 || h.usize == n; }
  out.assign(h.usize, 0);
  if (h.comp == 1) {
    LZ4F_dctx* c;
    if (LZ4F_isError(LZ4F_createDecompressionContext(&c, LZ4F_VERSION))) return false;
    size_t od = 0, is = 0;
    bool ok = true;
    while (is < n) {
      size_t o = out.size() - od, i = n - is;
      char dummy;
      size_t r = LZ4F_decompress(c, out.empty() ? &dummy : &out[0] + od, &o, p + is, &i, nullptr);
      if (LZ4F_isError(r)) { ok = false; break; }
      od += o;
      is += i;
      if (r == 0) break;
      if (o == 0 && i == 0) { ok = false; break; }
    }
    LZ4F_freeDecompressionContext(c);
    return ok && od == out.size() && is == n;
  }
  if (h.comp == 2) {
    size_t r = ZSTD_decompress(out.empty() ? nullptr : &out[0], out.size(), p, n);
    return !ZSTD_isError(r) && r == out.size();
  }
  return false;
}

RawFile rawParse(const string& b, int64_t userStart) {
  RawFile f;
  if (b.size() < sizeof(FHead)) return f;
  FHead h;
  memcpy(&h, b.data(), sizeof h);
  f.headerOk = !memcmp(b.data(), "VisionRe", 8) && !memcmp(&h.m3, "cord", 4) && h.hs == sizeof(FHead) && h.rhs == sizeof(RHead);
  f.headerSize = h.hs;
  f.recHeaderSize = h.rhs;
  f.version = h.ver;
  f.indexOff = h.idx;
  f.descOff = h.desc;
  f.firstUser = h.first;
  if (!f.headerOk) return f;
  auto parseAt = [&](uint64_t off, RawRec& r) {
    if (off + sizeof(RHead) > b.size()) return false;
    RHead x;
    memcpy(&x, b.data() + off, sizeof x);
    if (x.size < sizeof(RHead) || off + x.size > b.size()) return false;
    r.off = off;
    r.size = x.size; r.prev = x.prev; r.typeId = x.typeId; r.ver = x.ver; r.ts = x.ts; r.inst = x.inst; r.type = x.type; r.comp = x.comp; r.usize = x.usize;
    return true;
  };
  uint64_t at = userStart >= 0 ? (uint64_t)userStart : (uint64_t)h.first;
  if (userStart < 0 && h.first == 0) {
    // classic layout without a front index: records follow the description record
    RawRec d;
    if (!parseAt(h.desc, d)) return f;
    at = d.off + d.size;
  }
  const int32_t kIndexType = (int32_t)RecordableTypeId::VRSIndex, kDescType = (int32_t)RecordableTypeId::VRSDescription;
  while (at < b.size()) {
    RawRec r;
    if (!parseAt(at, r)) break;
    if (r.typeId == kIndexType || r.typeId == kDescType) { if (r.typeId == kIndexType && (int64_t)at == h.idx) break; at += r.size; continue; }
    RHead x;
    memcpy(&x, b.data() + at, sizeof x);
    r.bad = !decompress(x, b.data() + at + sizeof(RHead), r.size - sizeof(RHead), r.payload);
    at += r.size;
    f.user.push_back(std::move(r));
  }
  f.endOfUser = at;
  if (h.idx > 0 && parseAt(h.idx, f.index)) {
    f.hasIndexRec = f.index.typeId == kIndexType;
    RHead x;
    memcpy(&x, b.data() + h.idx, sizeof x);
    const char* p = b.data() + h.idx + sizeof(RHead);
    size_t n = x.size - sizeof(RHead);
    string raw;
    auto unz = [&](const char* q, size_t m) {
      // one or more zstd frames, possibly followed by unused preallocated space
      while (m > 0) {
        unsigned long long fs = ZSTD_getFrameContentSize(q, m);
        if (fs == ZSTD_CONTENTSIZE_ERROR || fs == ZSTD_CONTENTSIZE_UNKNOWN || fs > (1u << 28)) break;
        size_t used = ZSTD_findFrameCompressedSize(q, m);
        if (ZSTD_isError(used)) break;
        size_t o = raw.size();
        raw.resize(o + fs);
        size_t r = ZSTD_decompress(&raw[o], fs, q, used);
        if (ZSTD_isError(r)) { raw.resize(o); return; }
        q += used;
        m -= used;
      }
    };
    using E = vrs::IndexRecord::DiskRecordInfo;
    if (x.ver == 2 && n >= 8) {
      uint32_t sc;
      memcpy(&sc, p, 4);
      size_t pre = 4 + (size_t)sc * 6;
      if (pre + 4 <= n) {
        uint32_t rc;
        memcpy(&rc, p + pre, 4);
        const char* q = p + pre + 4;
        size_t m = n - pre - 4;
        if (x.usize) unz(q, m); else raw.assign(q, m);
        if (raw.size() >= (size_t)rc * sizeof(E)) {
          f.entries.resize(rc);
          if (rc) memcpy((void*)f.entries.data(), raw.data(), rc * sizeof(E));
          f.indexOk = true;
        }
      }
    } else if (x.ver == 3) {
      if (x.usize) unz(p, n); else raw.assign(p, n);
      f.entries.resize(raw.size() / sizeof(E));
      if (!f.entries.empty()) memcpy((void*)f.entries.data(), raw.data(), f.entries.size() * sizeof(E));
      f.indexOk = raw.size() % sizeof(E) == 0;
    }
  }
  return f;
}
void checkRawStructure(const RawFile& f, const char* where) {
  if (!f.headerOk) fail("bad file header %s", where);
  if (!f.hasIndexRec || !f.indexOk) fail("no valid index record in the file %s: index offset %ld", where, (long)f.indexOff);
  if (f.entries.size() != f.user.size()) fail("index does not match the records %s: %zu entries, %zu user records", where, f.entries.size(), f.user.size());
  for (size_t i = 0; i < f.user.size(); i++) {
    auto& u = f.user[i];
    auto& e = f.entries[i];
    if (u.bad) fail("record payload does not decompress %s: record %zu offset %lu", where, i, (unsigned long)u.off);
    if (e.timestamp != u.ts || e.recordSize != u.size || e.recordType != u.type || (int32_t)e.streamId.typeId != u.typeId || e.streamId.instanceId != u.inst)
      fail("index entry does not match its record %s: entry %zu size %u/%u ts %.17g/%.17g", where, i, e.recordSize, u.size, (double)e.timestamp, u.ts);
    if (i > 0 && u.prev != f.user[i - 1].size) fail("previous record size wrong %s: record %zu says %u, previous record has %u bytes", where, i, u.prev, f.user[i - 1].size);
  }
}
vector<string> chunkPaths(const string& base) {
  vector<string> r;
  if (!sim::fs::exists(base)) return r;
  r.push_back(base);
  for (int i = 1;; i++) {
    string p = base + "_" + std::to_string(i);
    if (!sim::fs::exists(p)) break;
    r.push_back(p);
  }
  return r;
}
string concatChunks(const vector<string>& paths) {
  string s;
  for (auto& p : paths) s += sim::fs::content(p);
  return s;
}
} // namespace w

static void warm() {
  // run the lazily initialised parts of the library once before the first fork
  sim::fs::mkdirs("/sim/tmp");
  {
    w::Model m;
    w::TestStream s(m, vrs::RecordableTypeId::UnitTest1, "warm");
    vrs::RecordFileWriter wr;
    wr.addRecordable(&s);
    wr.setTag("a", "b");
    s.make(1, vrs::Record::Type::DATA, 1, "hello");
    wr.writeToFile("/sim/tmp/warm.vrs");
    w::readFile("/sim/tmp/warm.vrs");
  }
  vrs::Recordable::resetNewInstanceIds();
  sim::fs::removeAll();
}
static sim::RegisterWarm warmReg(warm);
