// Navigation: every lookup agrees with a linear search, whatever was asked or read before (C13).
#include "mkrec.h"
#include "faultpick.h"
using namespace w;
using sim::fail;
using namespace sim;
using RI = vrs::IndexRecord::RecordInfo;
using T = Record::Type;

namespace {
const T kTypesAsked[] = {T::DATA, T::DATA, T::DATA, T::STATE, T::CONFIGURATION, T::TAGS, T::UNDEFINED};
string idx(const vector<RI>& ix, const RI* p) {
  if (p == nullptr) return "none";
  if (ix.empty() || p < &ix.front() || p > &ix.back()) return "foreign pointer";
  return std::to_string(p - &ix.front());
}
struct Nav {
  Ctx& ctx;
  vrs::RecordFileReader& rd;
  const Recorded* x = nullptr; // null: no file open
  const vector<RI>* ixp = nullptr;
  vector<StreamId> ids;     // present and absent streams
  vector<double> times;
  map<int64_t, uint32_t> sizes; // by offset; the size of the record on disk
  map<int64_t, uint32_t> sizes2; // with the tags records which follow it

  void load(const Recorded* rec) {
    x = rec;
    ixp = &rd.getIndex();
    ids.clear();
    times.clear();
    sizes.clear();
    sizes2.clear();
    auto& ix = *ixp;
    for (auto& r : ix) {
      times.push_back(r.timestamp);
      times.push_back(std::nextafter(r.timestamp, 1e300));
      times.push_back(std::nextafter(r.timestamp, -1e300));
    }
    for (size_t i = 1; i < ix.size(); i++) times.push_back((ix[i].timestamp + ix[i - 1].timestamp) / 2);
    times.insert(times.end(), {0, -1, 1e9, -1e9, std::numeric_limits<double>::max(), std::numeric_limits<double>::lowest()});
    for (auto id : rd.getStreams()) {
      ids.push_back(id);
      ids.push_back(id);
      ids.emplace_back(id.getTypeId(), (uint16_t)(id.getInstanceId() + 1));
    }
    ids.emplace_back(RecordableTypeId::ImageStream, (uint16_t)1);
    ids.emplace_back();
    if (!x) return;
    string bytes = concatChunks(x->paths);
    int64_t start = x->split ? (int64_t)sim::fs::content(x->paths[0]).size() : -1;
    RawFile raw = rawParse(bytes, start);
    for (size_t i = 0; i < raw.user.size(); i++) {
      uint32_t s = raw.user[i].size;
      sizes[(int64_t)raw.user[i].off] = s;
      for (size_t j = i + 1; j < raw.user.size() && raw.user[j].type == 4; j++) s += raw.user[j].size;
      sizes2[(int64_t)raw.user[i].off] = s;
    }
  }
  void same(const RI* got, const RI* want, const char* what, const string& args) {
    if (got != want) fail("%s: (%s) gives %s instead of %s", what, args.c_str(), idx(*ixp, got).c_str(), idx(*ixp, want).c_str());
  }
  void eq(uint64_t got, uint64_t want, const char* what, const string& args) {
    if (got != want) fail("%s: (%s) gives %llu instead of %llu", what, args.c_str(), (unsigned long long)got, (unsigned long long)want);
  }
  const RI* nth(StreamId id, T t, uint64_t n, bool anyType) {
    for (auto& r : *ixp)
      if (r.streamId == id && (anyType || r.recordType == t) && n-- == 0) return &r;
    return nullptr;
  }
  const RI* byTime(bool anyStream, StreamId id, bool anyType, T t, double ts) {
    for (auto& r : *ixp)
      if (r.timestamp >= ts && (anyStream || r.streamId == id) && (anyType || r.recordType == t)) return &r;
    return nullptr;
  }
  void query(Rng& q) {
    auto& ix = *ixp;
    StreamId id = ids[q.below(ids.size())];
    T t = kTypesAsked[q.below(7)];
    double ts = times[q.below(times.size())];
    uint32_t n = q.chance(0.05) ? ~0u : (uint32_t)q.below(ix.size() + 3);
    string s = id.getNumericName() + "," + vrs::toString(t) + "," + std::to_string(n);
    switch (q.below(22)) {
      case 0: same(rd.getRecord(n), n < ix.size() ? &ix[n] : nullptr, "getRecord(n)", std::to_string(n)); break;
      case 1: {
        n = q.chance(0.7) ? (uint32_t)q.below(8) : n;
        same(rd.getRecord(id, n), nth(id, t, n, true), "getRecord(stream,n)", s);
        break;
      }
      case 2: case 3: {
        // a walk: up, down, repeated or jumping
        uint32_t len = 1 + (uint32_t)q.below(6);
        uint64_t dir = q.below(4);
        n = (uint32_t)q.below(q.chance(0.5) ? 6 : ix.size() + 2);
        for (uint32_t i = 0; i < len; i++) {
          same(rd.getRecord(id, t, n), nth(id, t, n, false), "getRecord(stream,type,n)", id.getNumericName() + "," + vrs::toString(t) + "," + std::to_string(n));
          if (dir == 0) n++;
          else if (dir == 1 && n > 0) n--;
          else if (dir == 2) n = (uint32_t)q.below(ix.size() + 2);
        }
        break;
      }
      case 4: {
        const RI* want = nullptr;
        for (auto& r : ix) if (r.streamId == id && r.recordType == t) want = &r;
        same(rd.getLastRecord(id, t), want, "getLastRecord", s);
        break;
      }
      case 5: same(rd.getRecordByTime(ts), byTime(true, id, true, t, ts), "getRecordByTime(t)", strTs(ts)); break;
      case 6: same(rd.getRecordByTime(t, ts), byTime(true, id, false, t, ts), "getRecordByTime(type,t)", s + "," + strTs(ts)); break;
      case 7: same(rd.getRecordByTime(id, ts), byTime(false, id, true, t, ts), "getRecordByTime(stream,t)", s + "," + strTs(ts)); break;
      case 8: same(rd.getRecordByTime(id, t, ts), byTime(false, id, false, t, ts), "getRecordByTime(stream,type,t)", s + "," + strTs(ts)); break;
      case 9: case 10: {
        double eps = q.chance(0.3) ? 0 : q.chance(0.3) ? std::abs(ts - times[q.below(times.size())]) : q.chance(0.3) ? 1e300 : q.unit();
        bool any = q.chance(0.4);
        StreamId who = any ? StreamId() : id;
        if (!who.isValid()) any = true;
        double best = -1;
        for (auto& r : ix) {
          if ((!any && r.streamId != who) || (t != T::UNDEFINED && r.recordType != t)) continue;
          double d = std::abs(r.timestamp - ts);
          if (d <= eps && (best < 0 || d < best)) best = d;
        }
        const RI* got = rd.getNearestRecordByTime(ts, eps, who, t);
        string a = s + "," + strTs(ts) + "," + strTs(eps) + (any ? ",any" : "");
        if ((got != nullptr) != (best >= 0)) fail("getNearestRecordByTime: (%s) gives %s, best distance %g", a.c_str(), idx(ix, got).c_str(), best);
        if (got) {
          if (idx(ix, got)[0] == 'f') fail("getNearestRecordByTime: (%s) gives a pointer outside the index", a.c_str());
          if ((!any && got->streamId != who) || (t != T::UNDEFINED && got->recordType != t)) fail("getNearestRecordByTime: (%s) gives a record of another stream or type", a.c_str());
          if (std::abs(got->timestamp - ts) != best) fail("getNearestRecordByTime: (%s) gives a record at %g, the nearest is at %g", a.c_str(), std::abs(got->timestamp - ts), best);
        }
        break;
      }
      case 11: {
        if (ix.empty()) break;
        n = (uint32_t)q.below(ix.size());
        eq(rd.getRecordIndex(&ix[n]), n, "getRecordIndex", std::to_string(n));
        uint32_t k = 0;
        for (uint32_t i = 0; i < n; i++) k += ix[i].streamId == ix[n].streamId;
        eq(rd.getRecordStreamIndex(&ix[n]), k, "getRecordStreamIndex", std::to_string(n));
        break;
      }
      case 12: {
        eq(rd.getRecordIndex(nullptr), ix.size(), "getRecordIndex", "null");
        eq(rd.getRecordStreamIndex(nullptr), ix.size(), "getRecordStreamIndex", "null");
        RI alien(ts, 0, id, t);
        eq(rd.getRecordIndex(&alien), ix.size(), "getRecordIndex", "foreign record");
        eq(rd.getRecordStreamIndex(&alien), ix.size(), "getRecordStreamIndex", "foreign record");
        break;
      }
      case 13: {
        uint32_t a = 0, b = 0;
        for (auto& r : ix) { a += r.streamId == id; b += r.streamId == id && r.recordType == t; }
        eq(rd.getRecordCount(), ix.size(), "getRecordCount()", "");
        eq(rd.getRecordCount(id), a, "getRecordCount(stream)", s);
        if (t != T::UNDEFINED) eq(rd.getRecordCount(id, t), b, "getRecordCount(stream,type)", s);
        break;
      }
      case 14: {
        double a = 0, b = 0;
        bool first = true;
        for (auto& r : ix) if (r.recordType == T::DATA) { if (first) a = r.timestamp; first = false; b = r.timestamp; }
        if (rd.getFirstDataRecordTime() != a) fail("getFirstDataRecordTime: %g instead of %g", rd.getFirstDataRecordTime(), a);
        if (rd.getLastDataRecordTime() != b) fail("getLastDataRecordTime: %g instead of %g", rd.getLastDataRecordTime(), b);
        break;
      }
      case 15: {
        auto& six = rd.getIndex(id);
        vector<const RI*> want;
        for (auto& r : ix) if (r.streamId == id) want.push_back(&r);
        if (six != want) fail("getIndex(stream): %s has %zu records instead of %zu, or others", id.getNumericName().c_str(), six.size(), want.size());
        break;
      }
      case 16: {
        // streams of a kind
        auto type = q.chance(0.2) ? RecordableTypeId::Undefined : id.getTypeId();
        string flavor = q.chance(0.4) ? string() : rd.getFlavor(ids[q.below(ids.size())]);
        vector<StreamId> want;
        for (auto i : rd.getStreams()) if ((type == RecordableTypeId::Undefined || i.getTypeId() == type) && (flavor.empty() || rd.getFlavor(i) == flavor)) want.push_back(i);
        if (rd.getStreams(type, flavor) != want) fail("getStreams(type,flavor): %zu streams instead of %zu", rd.getStreams(type, flavor).size(), want.size());
        n = (uint32_t)q.below(4);
        StreamId w1, w2;
        uint32_t k = 0, l = 0;
        for (auto i : rd.getStreams()) {
          if (i.getTypeId() != type) continue;
          if (k++ == n) w1 = i;
          if (rd.getFlavor(i) == flavor && l++ == n) w2 = i;
        }
        StreamId g1 = rd.getStreamForType(type, n), g2 = rd.getStreamForFlavor(type, flavor, n);
        if (g1.isValid() != w1.isValid() || (w1.isValid() && g1 != w1)) fail("getStreamForType: %s instead of %s", g1.getNumericName().c_str(), w1.getNumericName().c_str());
        if (g2.isValid() != w2.isValid() || (w2.isValid() && g2 != w2)) fail("getStreamForFlavor: %s instead of %s", g2.getNumericName().c_str(), w2.getNumericName().c_str());
        break;
      }
      case 17: {
        bool there = rd.getStreams().count(id) != 0;
        StreamId g = rd.getStreamForName(id.getNumericName());
        if (g.isValid() != there || (there && g != id)) fail("getStreamForName: %s gives %s", id.getNumericName().c_str(), g.getNumericName().c_str());
        n = (uint32_t)q.below(4);
        string rel = std::to_string((int)id.getTypeId()) + "+" + std::to_string(n);
        StreamId want;
        uint32_t k = 0;
        for (auto i : rd.getStreams()) if (i.getTypeId() == id.getTypeId() && ++k == n) want = i;
        g = rd.getStreamForName(rel);
        if (g.isValid() != want.isValid() || (want.isValid() && g != want)) fail("getStreamForName: %s gives %s", rel.c_str(), g.getNumericName().c_str());
        break;
      }
      case 18: {
        if (rd.getStreams().empty()) break;
        // every stream can be found by its serial number and by its tags
        string sn = rd.getSerialNumber(id);
        if (rd.getStreams().count(id)) {
          if (sn.empty()) fail("getSerialNumber: no serial number for %s", id.getNumericName().c_str());
          if (rd.getStreamForSerialNumber(sn) != id) fail("getStreamForSerialNumber: %s gives %s", id.getNumericName().c_str(), rd.getStreamForSerialNumber(sn).getNumericName().c_str());
        }
        if (rd.getStreamForSerialNumber("no such number").isValid()) fail("getStreamForSerialNumber: found an absent number");
        StreamId other = ids[q.below(ids.size())];
        auto& tags = rd.getTags(other).user;
        string name = "absent", val = q.chance(0.5) ? "" : "x";
        if (!tags.empty() && q.chance(0.8)) {
          auto it = tags.begin();
          std::advance(it, (long)q.below(tags.size()));
          name = it->first;
          val = it->second;
        }
        auto type = q.chance(0.5) ? RecordableTypeId::Undefined : id.getTypeId();
        StreamId want;
        for (auto i : rd.getStreams()) {
          if (type != RecordableTypeId::Undefined && i.getTypeId() != type) continue;
          auto& u = rd.getTags(i).user;
          auto it = u.find(name);
          if ((it == u.end() ? string() : it->second) == val) { want = i; break; }
        }
        StreamId g = rd.getStreamForTag(name, val, type);
        if (g.isValid() != want.isValid() || (want.isValid() && g != want)) fail("getStreamForTag: %s gives %s instead of %s", name.c_str(), g.getNumericName().c_str(), want.getNumericName().c_str());
        break;
      }
      case 19: case 20: {
        if (!x) break;
        n = q.chance(0.1) ? n : (uint32_t)q.below(ix.size() + 1);
        uint32_t got = rd.getRecordSize(n);
        if (n >= ix.size()) { eq(got, 0, "getRecordSize", std::to_string(n)); break; }
        auto it = sizes.find(ix[n].fileOffset);
        if (it == sizes.end()) harnessError("no record at %ld", (long)ix[n].fileOffset);
        // tags records are not listed: the previous record may seem larger
        uint32_t more = sizes2[ix[n].fileOffset];
        if (got != it->second && got != more) fail("getRecordSize: record %u is %u bytes on disk, not %u", n, it->second, got);
        if (got != it->second) probe("size includes a tags record");
        break;
      }
      default: {
        // as a player would: the config records first
        if (!x || rd.getStreams().empty()) break;
        class P : public vrs::StreamPlayer {
         public:
          vector<std::pair<StreamId, int64_t>> got;
          string buf;
          bool processRecordHeader(const vrs::CurrentRecord& r, vrs::DataReference& ref) override {
            buf.resize(r.recordSize);
            ref.useRawData(buf.data(), (uint32_t)buf.size());
            got.emplace_back(r.streamId, r.recordInfo->fileOffset);
            return true;
          }
        } p;
        int how = (int)q.below(3);
        vector<std::pair<StreamId, int64_t>> want;
        for (auto i : rd.getStreams()) {
          if ((how == 0 && i != id) || (how == 2 && i.getTypeId() != id.getTypeId())) continue;
          const RI* c = nth(i, T::CONFIGURATION, 0, false);
          if (c) want.emplace_back(i, c->fileOffset);
        }
        bool ok = how == 0 ? rd.readFirstConfigurationRecord(id, &p) : how == 1 ? rd.readFirstConfigurationRecords(&p) : rd.readFirstConfigurationRecordsForType(id.getTypeId(), &p);
        if (ok != !want.empty()) fail("readFirstConfigurationRecord: returned %d with %zu streams which have one", ok, want.size());
        std::sort(want.begin(), want.end());
        std::sort(p.got.begin(), p.got.end());
        if (p.got != want) fail("readFirstConfigurationRecord: read %zu records instead of %zu, or others", p.got.size(), want.size());
        probe("config records read");
      }
    }
  }
};
} // namespace

SCENARIO("C13", navigation, 1) {
  ctx.begin();
  Rng& r = ctx.rng;
  MkOpts o;
  o.maxOps = r.chance(0.3) ? 60 : 20;
  o.big = 400;
  int nfiles = r.chance(0.4) ? 2 : 1;
  vector<Recorded> files;
  for (int i = 0; i < nfiles; i++) {
    o.path = "/sim/tmp/rec" + std::to_string(i) + ".vrs";
    unique_ptr<vrs::TemporaryRecordableInstanceIdsResetter> reset;
    if (r.chance(0.7)) reset = std::make_unique<vrs::TemporaryRecordableInstanceIdsResetter>(); // the same streams in both
    files.push_back(makeRecording(ctx, o));
  }
  pickReadFaults(ctx);
  vrs::RecordFileReader rd;
  Nav nav{ctx, rd};
  uint32_t opi = 0;
  int rounds = nfiles == 1 ? 1 + (int)r.below(2) : 2 + (int)r.below(2);
  if (r.chance(0.3)) {
    // before any file is open
    nav.load(nullptr);
    for (int i = 0; i < 6; i++) { Rng q = ctx.opRng(opi); if (ctx.op(opi++)) nav.query(q); }
  }
  for (int k = 0; k < rounds; k++) {
    Recorded& x = files[(size_t)k % files.size()];
    if (rd.isOpened()) {
      rd.closeFile(); // a reader which is still open can't be used for another file
      nav.load(nullptr);
      if (!nav.ixp->empty()) fail("index left after closing: %zu records", nav.ixp->size());
      if (r.chance(0.5))
        for (int i = 0; i < 4; i++) { Rng q = ctx.opRng(opi); if (ctx.op(opi++)) nav.query(q); }
    }
    int st = rd.openFile(x.path);
    if (st) fail("unreadable: openFile returned %d", st);
    nav.load(&x);
    if (nav.ixp->size() != x.ref.recs.size()) fail("getIndex: %zu records instead of %zu", nav.ixp->size(), x.ref.recs.size());
    for (size_t i = 0; i < x.ref.recs.size(); i++)
      if ((*nav.ixp)[i].fileOffset != x.ref.recs[i].offset) fail("getIndex: record %zu differs from the previous reading", i);
    int n = 30 + (int)r.below(ctx.thorough ? 150 : 60);
    for (int i = 0; i < n; i++) {
      Rng q = ctx.opRng(opi);
      if (!ctx.op(opi++)) continue;
      if (q.chance(0.15) && !nav.ixp->empty()) {
        // reading, which may fail, changes no answer
        bool faults = q.chance(0.5);
        Collector c;
        auto& e = (*nav.ixp)[q.below(nav.ixp->size())];
        if (faults) armFaults(true);
        int rs = rd.readRecord(e, &c);
        armFaults(false);
        if (rs && !faults) fail("unreadable: readRecord returned %d", rs);
        if (rs) probe("navigation after a failed read");
      } else nav.query(q);
    }
    if (nav.ixp->size() > 20) nontrivial();
  }
  rd.closeFile();
  ctx.end();
}
