// Several files opened together behave as one (C14).
#include "mkrec.h"
#include "faultpick.h"
#include <vrs/TagConventions.h>
using namespace w;
using sim::fail;
using namespace sim;
using RI = vrs::IndexRecord::RecordInfo;
using T = Record::Type;

namespace {
struct Item {
  const RI* p;
  size_t file, pos;
  StreamId uid;
};
class Keep : public vrs::StreamPlayer {
 public:
  string buf;
  int headers = 0, records = 0;
  uint32_t n = 0;
  double ts = 0;
  bool processRecordHeader(const vrs::CurrentRecord& r, vrs::DataReference& ref) override {
    headers++;
    ts = r.timestamp;
    buf.assign(r.recordSize, '\xEE');
    ref.useRawData(buf.data(), (uint32_t)buf.size());
    return true;
  }
  void processRecord(const vrs::CurrentRecord&, uint32_t rs) override { records++; n = rs; }
};
struct Files {
  vector<Recorded*> v;
  size_t size() const { return v.size(); }
  Recorded& operator[](size_t i) { return *v[i]; }
  struct It {
    Recorded** p;
    Recorded& operator*() { return **p; }
    It& operator++() { p++; return *this; }
    bool operator!=(const It& o) const { return p != o.p; }
  };
  It begin() { return {v.data()}; }
  It end() { return {v.data() + v.size()}; }
};
struct Multi {
  Ctx& ctx;
  Files& files;
  vrs::MultiRecordFileReader& rd;
  vector<Item> items;
  vector<StreamId> ids;
  vector<double> times;
  map<StreamId, std::pair<size_t, StreamId>> origin;

  string at(const RI* p) {
    if (!p) return "none";
    for (size_t i = 0; i < items.size(); i++) if (items[i].p == p) return std::to_string(i);
    return "a record of no file";
  }
  void load() {
    if (!rd.isOpened()) fail("not open after a successful open");
    auto& readers = rd.getReaders();
    if (readers.size() != files.size()) fail("reader count differs: %zu", readers.size());
    size_t total = 0, streams = 0;
    for (auto& f : files) { total += f.ref.recs.size(); streams += f.ref.streams.size(); }
    if (rd.getRecordCount() != total) fail("record count differs: %u instead of %zu", rd.getRecordCount(), total);
    vector<size_t> next(files.size(), 0);
    vector<map<StreamId, StreamId>> uids(files.size());
    double last = -std::numeric_limits<double>::infinity();
    for (uint32_t i = 0; i < total; i++) {
      const RI* p = rd.getRecord(i);
      if (!p) fail("record missing: getRecord(%u) of %zu", i, total);
      Item it{p, files.size(), 0, rd.getUniqueStreamId(p)};
      for (size_t k = 0; k < files.size(); k++) {
        auto& ix = readers[k]->getIndex();
        if (!ix.empty() && p >= &ix.front() && p <= &ix.back()) { it.file = k; it.pos = (size_t)(p - &ix.front()); }
      }
      if (it.file == files.size()) fail("foreign record: getRecord(%u)", i);
      auto& want = files[it.file].ref.recs;
      if (it.pos != next[it.file]) fail("records of one file reordered: file %zu record %zu comes after %zu records", it.file, it.pos, next[it.file]);
      next[it.file]++;
      auto& w = want[it.pos];
      if (p->timestamp != w.ts || p->recordType != w.type || p->streamId != w.sid || p->fileOffset != w.offset) fail("record differs: file %zu record %zu", it.file, it.pos);
      if (p->timestamp < last) fail("records not sorted by time: record %u", i);
      last = p->timestamp;
      if (!it.uid.isValid() || it.uid.getTypeId() != w.sid.getTypeId()) fail("unique id invalid: %s for %s", it.uid.getNumericName().c_str(), w.sid.getNumericName().c_str());
      auto ins = uids[it.file].emplace(w.sid, it.uid);
      if (ins.first->second != it.uid) fail("unique id changes: stream %s of file %zu", w.sid.getNumericName().c_str(), it.file);
      auto o = origin.emplace(it.uid, std::make_pair(it.file, w.sid));
      if (o.first->second != std::make_pair(it.file, w.sid)) fail("unique id shared: %s by two streams", it.uid.getNumericName().c_str());
      items.push_back(it);
    }
    auto& us = rd.getStreams();
    if (us.size() != streams) fail("stream count differs: %zu instead of %zu", us.size(), streams);
    for (auto& o : origin) if (!us.count(o.first)) fail("unique id not listed: %s", o.first.getNumericName().c_str());
    // every stream of every file appears once, recognised by its tags
    std::multiset<std::pair<string, string>> a, b;
    for (auto id : us) a.emplace(rd.getSerialNumber(id), rd.getFlavor(id));
    for (size_t k = 0; k < files.size(); k++) for (auto id : files[k].ref.streams) b.emplace(readers[k]->getSerialNumber(id), readers[k]->getFlavor(id));
    if (a != b) fail("streams differ: other serial numbers or flavors");
    for (auto& o : origin) {
      auto& want = files[o.second.first].ref.streamTags[o.second.second];
      if (rd.getTags(o.first).user != want.user || rd.getTags(o.first).vrs != want.vrs) fail("stream tags differ: %s", o.first.getNumericName().c_str());
    }
    map<string, string> tags;
    for (auto& f : files) tags.insert(f.ref.tags.begin(), f.ref.tags.end());
    if (files.size() == 1) {
      // a single file's tags are its own
    }
    if (rd.getTags() != tags) fail("file tags differ: %zu instead of %zu", rd.getTags().size(), tags.size());
    for (auto& t : tags) if (rd.getTag(t.first) != t.second) fail("file tags differ: tag %s", t.first.c_str());
    int64_t size = 0;
    for (auto& f : files) for (auto& p : f.paths) size += (int64_t)sim::fs::content(p).size();
    if (rd.getTotalSourceSize() != size) fail("total size differs: %ld instead of %ld", (long)rd.getTotalSourceSize(), (long)size);
    for (auto id : us) {
      ids.push_back(id);
      ids.push_back(id);
      ids.emplace_back(id.getTypeId(), (uint16_t)(id.getInstanceId() + 1));
    }
    ids.emplace_back(RecordableTypeId::ImageStream, (uint16_t)1);
    ids.emplace_back();
    for (auto& i : items) {
      times.push_back(i.p->timestamp);
      times.push_back(std::nextafter(i.p->timestamp, 1e300));
      times.push_back(std::nextafter(i.p->timestamp, -1e300));
    }
    times.insert(times.end(), {0, -1, 1e9, -1e9});
    for (size_t i = 1; i < items.size(); i++) times.push_back((items[i].p->timestamp + items[i - 1].p->timestamp) / 2);
  }
  void same(const RI* got, const RI* want, const char* what, const string& args) {
    if (got != want) fail("%s: (%s) gives %s instead of %s", what, args.c_str(), at(got).c_str(), at(want).c_str());
  }
  // first match
  template <class F> const RI* find(F f) {
    for (auto& i : items) if (f(i)) return i.p;
    return nullptr;
  }
  void query(Rng& q) {
    StreamId id = ids[q.below(ids.size())];
    static const T kT[] = {T::DATA, T::DATA, T::STATE, T::CONFIGURATION, T::TAGS};
    T t = kT[q.below(5)];
    double ts = times[q.below(times.size())];
    uint32_t n = (uint32_t)q.below(q.chance(0.6) ? 8 : items.size() + 3);
    string s = id.getNumericName() + "," + vrs::toString(t) + "," + std::to_string(n) + "," + strTs(ts);
    switch (q.below(18)) {
      case 0: same(rd.getRecord(n), n < items.size() ? items[n].p : nullptr, "getRecord(n)", s); break;
      case 1: { uint32_t k = n; same(rd.getRecord(id, n), find([&](const Item& i) { return i.uid == id && k-- == 0; }), "getRecord(stream,n)", s); break; }
      case 2: case 3: { uint32_t k = n; same(rd.getRecord(id, t, n), find([&](const Item& i) { return i.uid == id && i.p->recordType == t && k-- == 0; }), "getRecord(stream,type,n)", s); break; }
      case 4: {
        const RI *a = nullptr, *b = nullptr;
        for (auto& i : items) if (i.p->recordType == t) { b = i.p; if (i.uid == id) a = i.p; }
        same(rd.getLastRecord(id, t), a, "getLastRecord(stream,type)", s);
        same(rd.getLastRecord(t), b, "getLastRecord(type)", s);
        same(rd.getFirstRecord(t), find([&](const Item& i) { return i.p->recordType == t; }), "getFirstRecord(type)", s);
        break;
      }
      case 5: same(rd.getRecordByTime(ts), find([&](const Item& i) { return i.p->timestamp >= ts; }), "getRecordByTime(t)", s); break;
      case 6: same(rd.getRecordByTime(id, ts), find([&](const Item& i) { return i.uid == id && i.p->timestamp >= ts; }), "getRecordByTime(stream,t)", s); break;
      case 7: same(rd.getRecordByTime(id, t, ts), find([&](const Item& i) { return i.uid == id && i.p->recordType == t && i.p->timestamp >= ts; }), "getRecordByTime(stream,type,t)", s); break;
      case 8: case 9: {
        double eps = q.chance(0.3) ? 0 : q.chance(0.4) ? std::abs(ts - times[q.below(times.size())]) : q.unit();
        bool any = !id.isValid() || q.chance(0.4);
        bool anyT = q.chance(0.3);
        double best = -1;
        auto ok = [&](const Item& i) { return (any || i.uid == id) && (anyT || i.p->recordType == t); };
        for (auto& i : items) {
          double d = std::abs(i.p->timestamp - ts);
          if (ok(i) && d <= eps && (best < 0 || d < best)) best = d;
        }
        const RI* got = rd.getNearestRecordByTime(ts, eps, any ? StreamId() : id, anyT ? T::UNDEFINED : t);
        if ((got != nullptr) != (best >= 0)) fail("getNearestRecordByTime: (%s,%g) gives %s, best distance %g", s.c_str(), eps, at(got).c_str(), best);
        if (got) {
          bool found = false;
          for (auto& i : items) found = found || (i.p == got && ok(i));
          if (!found) fail("getNearestRecordByTime: (%s) gives a record of another stream or type", s.c_str());
          if (std::abs(got->timestamp - ts) != best) fail("getNearestRecordByTime: (%s,%g) gives a record at %g, the nearest is at %g", s.c_str(), eps, std::abs(got->timestamp - ts), best);
        }
        break;
      }
      case 10: case 11: {
        if (items.empty()) break;
        n = (uint32_t)q.below(items.size());
        if (rd.getRecordIndex(items[n].p) != n) fail("getRecordIndex: %u for record %u", rd.getRecordIndex(items[n].p), n);
        RI alien(ts, 0, id, t);
        if (rd.getRecordIndex(nullptr) != items.size() || rd.getRecordIndex(&alien) != items.size()) fail("getRecordIndex: found a record which isn't there");
        if (rd.getUniqueStreamId(items[n].p) != items[n].uid) fail("getUniqueStreamId: changes");
        break;
      }
      case 12: {
        uint32_t a = 0, b = 0;
        for (auto& i : items) { a += i.uid == id; b += i.uid == id && i.p->recordType == t; }
        if (rd.getRecordCount(id) != a || rd.getRecordCount(id, t) != b) fail("getRecordCount: (%s) gives %u,%u instead of %u,%u", s.c_str(), rd.getRecordCount(id), rd.getRecordCount(id, t), a, b);
        break;
      }
      case 13: {
        vector<const RI*> want;
        for (auto& i : items) if (i.uid == id) want.push_back(i.p);
        if (rd.getIndex(id) != want) fail("getIndex(stream): %s has %zu records instead of %zu, or others", id.getNumericName().c_str(), rd.getIndex(id).size(), want.size());
        break;
      }
      case 14: {
        auto type = q.chance(0.2) ? RecordableTypeId::Undefined : id.getTypeId();
        string flavor = q.chance(0.4) ? string() : rd.getFlavor(ids[q.below(ids.size())]);
        vector<StreamId> want;
        for (auto i : rd.getStreams()) if ((type == RecordableTypeId::Undefined || i.getTypeId() == type) && (flavor.empty() || rd.getFlavor(i) == flavor)) want.push_back(i);
        if (rd.getStreams(type, flavor) != want) fail("getStreams(type,flavor): %zu streams instead of %zu", rd.getStreams(type, flavor).size(), want.size());
        bool there = rd.getStreams().count(id) != 0;
        StreamId g = rd.getStreamForName(id.getNumericName());
        if (g.isValid() != there || (there && g != id)) fail("getStreamForName: %s gives %s", id.getNumericName().c_str(), g.getNumericName().c_str());
        break;
      }
      case 15: {
        if (!rd.getStreams().count(id)) break;
        string sn = rd.getSerialNumber(id);
        StreamId g = rd.getStreamForSerialNumber(sn);
        if (!g.isValid() || rd.getSerialNumber(g) != sn) fail("getStreamForSerialNumber: not found");
        string val = rd.getTag(id, "serial");
        StreamId want;
        for (auto i : rd.getStreams()) if (rd.getTag(i, "serial") == val) { want = i; break; }
        g = rd.getStreamForTag("serial", val);
        if (g != want) fail("getStreamForTag: %s instead of %s", g.getNumericName().c_str(), want.getNumericName().c_str());
        if (rd.getStreamForTag("serial", "none of them").isValid()) fail("getStreamForTag: found an absent value");
        break;
      }
      case 16: {
        n = (uint32_t)q.below(items.size() + 1);
        uint32_t got = rd.getRecordSize(n);
        uint32_t want = n < items.size() ? rd.getReaders()[items[n].file]->getRecordSize((uint32_t)items[n].pos) : 0;
        if (got != want) fail("getRecordSize: record %u is %u bytes, not %u", n, want, got);
        break;
      }
      default: {
        Keep p;
        const RI* c = find([&](const Item& i) { return i.uid == id && i.p->recordType == T::CONFIGURATION; });
        bool ok = rd.readFirstConfigurationRecord(id, &p);
        if (ok != (c != nullptr)) fail("readFirstConfigurationRecord: returned %d for %s", ok, id.getNumericName().c_str());
        if (c) checkData(c, p);
      }
    }
  }
  void checkData(const RI* p, Keep& k) {
    for (auto& i : items) {
      if (i.p != p) continue;
      auto& want = files[i.file].ref.recs[i.pos];
      if (k.headers != 1 || k.records != 1) fail("record not delivered: %d headers %d records", k.headers, k.records);
      if (k.ts != want.ts || k.buf != want.data || k.n != want.data.size()) fail("record of another file or altered: file %zu record %zu", i.file, i.pos);
    }
  }
  void read(Rng& q, bool faults) {
    if (items.empty()) return;
    auto& it = items[q.below(items.size())];
    Keep k;
    int how = (int)q.below(2);
    if (how == 0) rd.setStreamPlayer(it.uid, &k);
    uint64_t before = faultsInjected();
    if (faults) armFaults(true);
    int st = how == 0 ? rd.readRecord(*it.p) : rd.readRecord(*it.p, &k, q.chance(0.5));
    armFaults(false);
    if (how == 0) rd.setStreamPlayer(it.uid, nullptr);
    if (st) {
      if (faultsInjected() == before) fail("unreadable: reading record of file %zu returned %d", it.file, st);
      probe("merged read failed by a fault");
      return;
    }
    checkData(it.p, k);
  }
};
} // namespace

SCENARIO("C14", merged_files, 1) {
  ctx.begin();
  Rng& r = ctx.rng;
  MkOpts o;
  o.big = 400;
  int n = 1 + (int)r.below(r.chance(0.2) ? 6 : 4);
  using namespace vrs::tag_conventions;
  string keyA = kCaptureTimeEpoch, keyB = kSessionId;
  bool customTags = r.chance(0.25), noTags = !customTags && r.chance(0.15);
  bool mismatch = r.chance(0.25);
  vector<Recorded> files;
  vector<map<string, string>> tags;
  for (int i = 0; i < n; i++) {
    o.path = "/sim/tmp/rec" + std::to_string(i) + ".vrs";
    o.maxOps = r.chance(0.2) ? 50 : r.chance(0.2) ? 1 : 12;
    o.tags.clear();
    for (auto& k : {keyA, keyB, string("mine")}) {
      if (r.chance(0.5)) o.tags[k] = mismatch && r.chance(0.3) ? "other" + std::to_string(r.below(2)) : r.chance(0.05) ? "" : "same";
    }
    o.tags["only in " + std::to_string(i)] = "x";
    tags.push_back(o.tags);
    unique_ptr<vrs::TemporaryRecordableInstanceIdsResetter> reset;
    if (r.chance(0.8)) reset = std::make_unique<vrs::TemporaryRecordableInstanceIdsResetter>(); // the same stream ids again
    files.push_back(makeRecording(ctx, o));
  }

  vector<string> keys{keyA, keyB};
  if (customTags) keys = {"mine"};
  if (noTags) keys.clear();
  bool related = true;
  for (auto& k : keys) {
    set<string> vals;
    for (auto& t : tags) {
      auto it = t.find(k);
      if (it != t.end() && !it->second.empty()) vals.insert(it->second);
    }
    related = related && vals.size() < 2;
  }
  vector<string> paths;
  for (auto& f : files) paths.push_back(f.path);
  for (size_t i = files.size(); i > 1; i--) {
    size_t j = r.below(i);
    std::swap(files[i - 1], files[j]);
    std::swap(paths[i - 1], paths[j]);
  }
  pickReadFaults(ctx);
  int handles = sim::fs::openHandles();
  int tries = 1 + (int)r.below(3);
  uint32_t opi = 0;
  auto rd = std::make_unique<vrs::MultiRecordFileReader>();
  if (customTags) rd->setRelatedFileTags({"mine"});
  if (noTags) rd->setRelatedFileTags({});
  bool bad = r.chance(0.15);
  bool open = false;
  for (int k = 0; k < tries && !open; k++) {
    bool last = k + 1 == tries;
    bool faults = !last || r.chance(0.3);
    vector<string> p = paths;
    bool missing = bad && !last;
    if (missing) {
      size_t at = r.below(p.size() + 1);
      string name = "/sim/tmp/absent.vrs";
      if (r.chance(0.5)) { name = "/sim/tmp/junk.vrs"; sim::fs::setContent(name, r.chance(0.5) ? "" : makePayload(77, 300, kRandomBytes)); }
      p.insert(p.begin() + (long)at, name);
    }
    uint64_t before = faultsInjected();
    armFaults(faults);
    int st = rd->open(p);
    armFaults(false);
    bool faulted = faultsInjected() != before;
    if (st == 0) {
      if (missing) fail("success with an unreadable file");
      if (!related) fail("unrelated files accepted");
      open = true;
      if (faulted) probe("opened in spite of faults");
      break;
    }
    if (!faulted && !missing && related) fail("refused: open returned %d for %zu related files", st, p.size());
    if (rd->isOpened() || rd->getRecordCount() != 0 || !rd->getStreams().empty() || rd->getRecord(0) != nullptr) fail("something open after a failed open: %u records", rd->getRecordCount());
    if (rd->readRecord(RI()) == 0) fail("something open after a failed open: readRecord succeeded");
    if (sim::fs::openHandles() != handles) fail("files left open after a failed open: %d", sim::fs::openHandles() - handles);
    if (!rd->getReaders().empty()) fail("readers left after a failed open: %zu", rd->getReaders().size());
    probe(!related ? "unrelated files refused" : "open failed");
  }
  for (int round = 0; open; round++) {
    Files part;
    for (auto& f : files) part.v.push_back(&f);
    if (round > 0) { // other files, or the same ones in another order
      for (size_t i = part.size(); i > 1; i--) std::swap(part.v[i - 1], part.v[r.below(i)]);
      part.v.resize(1 + r.below(part.size()));
      vector<string> p;
      for (auto& f : part) p.push_back(f.path);
      int st = rd->open(p);
      if (st) fail("refused: opening %zu related files again returned %d", p.size(), st);
      probe("opened again");
    }
    Multi m{ctx, part, *rd};
    m.load();
    if (files.size() > 1 && m.items.size() > 10) nontrivial();
    size_t coll = 0;
    for (auto& o2 : m.origin) coll += o2.first != o2.second.second;
    if (coll) probe("colliding stream ids");
    int qn = 30 + (int)r.below(ctx.thorough ? 120 : 50);
    for (int i = 0; i < qn; i++) {
      Rng q = ctx.opRng(opi);
      if (!ctx.op(opi++)) continue;
      if (q.chance(0.3)) m.read(q, q.chance(0.4));
      else m.query(q);
    }
    if (round == 2 || r.chance(0.5)) break;
    int st = rd->close();
    if (st) fail("status: close returned %d", st);
    if (rd->isOpened() || rd->getRecordCount() || !rd->getStreams().empty() || !rd->getReaders().empty()) fail("something open after closing");
    if (sim::fs::openHandles() != handles) fail("files left open after closing: %d", sim::fs::openHandles() - handles);
    if (r.chance(0.4)) break;
  }

  rd.reset();
  if (sim::fs::openHandles() != handles) fail("files left open: %d", sim::fs::openHandles() - handles);
  files.clear();
  ctx.end();
}
