// Copying, filtering and merging files (C15).
#include "mkrec.h"
#include "faultpick.h"
#include <algorithm>
#include <cmath>
#include <vrs/utils/FilterCopy.h>
#include <vrs/utils/FilteredFileReader.h>
#include <vrs/utils/ThrottleHelpers.h>
#include <vrs/utils/cli/DefaultDecimator.h>
using namespace w;
using sim::fail;
using namespace sim;
using RI = vrs::IndexRecord::RecordInfo;
using T = Record::Type;
using vrs::utils::CopyOptions;
using vrs::utils::FilteredFileReader;
using vrs::utils::RecordFilterParams;

namespace {
constexpr double kLow = std::numeric_limits<double>::lowest(), kHigh = std::numeric_limits<double>::max();
// what is asked of one source
struct Ask {
  RecordFilterParams params;
  bool hasMin = false, relMin = false, hasMax = false, relMax = false;
  double minV = kLow, maxV = kHigh;
  // resolved
  double lo = kLow, hi = kHigh;
  set<StreamId> streams;
  set<T> types;
  vector<size_t> sel; // selected records, pre-roll first
};
bool dataRange(const FileView& v, const set<StreamId>& streams, double& a, double& b) {
  bool any = false;
  for (auto& g : v.recs) {
    if (g.type != T::DATA || !streams.count(g.sid)) continue;
    if (!any || g.ts < a) a = g.ts;
    if (!any || g.ts > b) b = g.ts;
    any = true;
  }
  return any;
}
string flavorOf(const FileView& v, StreamId id) {
  auto it = v.streamTags.find(id);
  if (it == v.streamTags.end()) return {};
  auto f = it->second.vrs.find("VRS_Recordable_Flavor");
  return f == it->second.vrs.end() ? string() : f->second;
}
Ask pickAsk(Rng& r, const FileView& v, bool time) {
  Ask a;
  vector<StreamId> ids(v.streams.begin(), v.streams.end());
  a.streams = v.streams;
  if (r.chance(0.5) && !ids.empty()) {
    bool started = false;
    set<StreamId> cur;
    int n = 1 + (int)r.below(3);
    for (int i = 0; i < n; i++) {
      StreamId id = r.pick(ids);
      set<StreamId> named;
      string s;
      switch (r.below(6)) {
        case 0: s = std::to_string((int)id.getTypeId()); for (auto k : ids) if (k.getTypeId() == id.getTypeId()) named.insert(k); break;
        case 1: {
          uint32_t nth = 1 + (uint32_t)r.below(3), k = 0;
          s = std::to_string((int)id.getTypeId()) + "+" + std::to_string(nth);
          for (auto x : ids) if (x.getTypeId() == id.getTypeId() && ++k == nth) named.insert(x);
          break;
        }
        case 2: {
          string f = flavorOf(v, id);
          if (f.empty()) f = "none";
          s = std::to_string((int)id.getTypeId()) + "-" + f;
          for (auto x : ids) if (x.getTypeId() == id.getTypeId() && flavorOf(v, x) == f) named.insert(x);
          break;
        }
        case 3: {
          StreamId absent(id.getTypeId(), (uint16_t)(id.getInstanceId() + 100));
          s = absent.getNumericName();
          break;
        }
        default: s = id.getNumericName(); named.insert(id);
      }
      bool plus = r.chance(0.6);
      if (plus) {
        if (!a.params.includeStream(s)) fail("filter refused: stream %s", s.c_str());
        if (!started) cur.clear();
        cur.insert(named.begin(), named.end());
      } else {
        if (!a.params.excludeStream(s)) fail("filter refused: stream %s", s.c_str());
        if (!started) cur = v.streams;
        for (auto k : named) cur.erase(k);
      }
      started = true;
    }
    a.streams = cur;
  }
  a.types = {T::CONFIGURATION, T::STATE, T::DATA};
  if (r.chance(0.3)) {
    bool started = false;
    int n = 1 + (int)r.below(2);
    for (int i = 0; i < n; i++) {
      static const std::pair<const char*, T> names[] = {{"configuration", T::CONFIGURATION}, {"state", T::STATE}, {"data", T::DATA}};
      auto& t = names[r.below(3)];
      if (r.chance(0.5)) { a.params.includeType(t.first); if (!started) a.types.clear(); a.types.insert(t.second); }
      else { a.params.excludeType(t.first); a.types.erase(t.second); }
      started = true;
    }
  }
  if (time && r.chance(0.6)) {
    vector<double> ts;
    for (auto& g : v.recs) ts.push_back(g.ts);
    auto pickT = [&]() -> double {
      if (ts.empty()) return r.unit();
      double t = ts[r.below(ts.size())];
      switch (r.below(4)) {
        case 0: return std::nextafter(t, kHigh);
        case 1: return t + 0.001 * (double)r.below(100);
        default: return t;
      }
    };
    double x, y;
    bool rel = dataRange(v, a.streams, x, y) && r.chance(0.4);
    if (r.chance(0.8)) {
      a.hasMin = true;
      a.relMin = rel && r.chance(0.7);
      a.minV = a.relMin ? (r.chance(0.5) ? 1 : -1) * (y - x) * r.unit() : pickT();
    }
    if (r.chance(0.7)) {
      a.hasMax = true;
      a.relMax = rel && r.chance(0.7);
      a.maxV = a.relMax ? (r.chance(0.5) ? 1 : -1) * (y - x) * r.unit() : pickT();
      if (a.hasMin && !a.relMin && !a.relMax && a.maxV < a.minV && r.chance(0.9)) std::swap(a.minV, a.maxV);
    }
  }
  return a;
}
void resolve(Ask& a, const FileView& v, bool haveRange, double start, double end) {
  a.lo = a.hasMin ? a.minV : kLow;
  a.hi = a.hasMax ? a.maxV : kHigh;
  if (a.relMin) { if (!haveRange) harnessError("relative time without data"); a.lo += a.minV < 0 ? end : start; }
  if (a.relMax) { if (!haveRange) harnessError("relative time without data"); a.hi += a.maxV < 0 ? end : start; }
  if (a.lo > a.hi) return; // nothing
  size_t first = 0;
  while (first < v.recs.size() && v.recs[first].ts < a.lo) first++;
  if (a.hasMin && first < v.recs.size()) {
    // the configuration and the state of each stream at the start
    vector<size_t> roll;
    set<std::pair<StreamId, T>> seen;
    for (size_t i = first; i-- > 0;) {
      auto& g = v.recs[i];
      if (g.type == T::DATA || !a.types.count(g.type) || !a.streams.count(g.sid)) continue;
      if (g.type != T::CONFIGURATION && g.type != T::STATE) continue;
      if (seen.emplace(g.sid, g.type).second) roll.push_back(i);
    }
    a.sel.assign(roll.rbegin(), roll.rend());
    if (!roll.empty()) probe("earlier configuration or state included");
  }
  for (size_t i = first; i < v.recs.size() && v.recs[i].ts <= a.hi; i++)
    if (a.types.count(v.recs[i].type) && a.streams.count(v.recs[i].sid)) a.sel.push_back(i);
}
void apply(const Ask& a, FilteredFileReader& f) {
  if (a.hasMin) f.setMinTime(a.minV, a.relMin);
  if (a.hasMax) f.setMaxTime(a.maxV, a.relMax);
}
string askStr(const Ask& a) {
  string s = "streams " + std::to_string(a.streams.size());
  for (auto& x : a.params.streamFilters) s += " " + x;
  s += " types " + std::to_string(a.types.size());
  if (a.hasMin) s += " from " + strTs(a.minV) + (a.relMin ? "r" : "");
  if (a.hasMax) s += " to " + strTs(a.maxV) + (a.relMax ? "r" : "");
  return s + " selects " + std::to_string(a.sel.size());
}
void pickOptions(Rng& r, CopyOptions& o) {
  o.showProgress = r.chance(0.2);
  o.compressionPoolSize = r.chance(0.5) ? 0 : 1 + (unsigned)r.below(3);
  if (r.chance(0.8)) o.setCompressionPreset(pickPreset(r));
  o.preallocateIndex = r.chance(0.6);
  o.graceWindow = r.chance(0.3) ? 0.05 * (double)r.below(10) : 0;
  o.maxChunkSizeMB = r.chance(0.1) ? 1 : 0;
}
// the writer is slowed down at random by its wait condition
class SlowDelegate : public vrs::utils::ThrottledFileDelegate {
 public:
  explicit SlowDelegate(uint64_t seed) : q(seed) {}
  void init(vrs::utils::ThrottledWriter& t) override {
    ThrottledFileDelegate::init(t);
    t.addWaitCondition([this] { return q.chance(0.05); });
  }
  bool shouldPreallocateIndex() const override { return pre; }
  Rng q;
  bool pre = true;
};
unique_ptr<vrs::utils::ThrottledFileDelegate> pickDelegate(Rng& r) {
  if (r.chance(0.7)) return std::make_unique<vrs::utils::ThrottledFileDelegate>();
  auto d = std::make_unique<SlowDelegate>(r.next());
  d->pre = r.chance(0.8);
  return d;
}
void pickCopyFaults(Ctx& ctx, const string& dst) {
  Rng& r = ctx.rng;
  bool onlyRead = r.chance(0.5), onlyWrite = !onlyRead && r.chance(0.6);
  if (onlyRead) pickReadFaults(ctx);
  else if (onlyWrite) pickWriteFaults(ctx, false, false);
  else { pickReadFaults(ctx); pickWriteFaults(ctx, false, false); }
  if (onlyRead) faultCfg().pathFilter = [dst](const string& p) { return p.rfind(dst, 0) != 0; };
  if (onlyWrite) faultCfg().pathFilter = [dst](const string& p) { return p.rfind(dst, 0) == 0; };
}
struct Source {
  Recorded* x;
  Ask ask;
  unique_ptr<FilteredFileReader> f;
};
// opens without faults
void openSource(Source& s) {
  s.f = std::make_unique<FilteredFileReader>(s.x->path);
  int st = s.f->openFile(s.ask.params);
  if (st) fail("unreadable: opening the source returned %d", st);
  if (s.f->filter.streams != s.ask.streams) fail("streams selected differ: %zu instead of %zu (%s)", s.f->filter.streams.size(), s.ask.streams.size(), askStr(s.ask).c_str());
  if (s.f->filter.types != s.ask.types) fail("types selected differ: %zu instead of %zu", s.f->filter.types.size(), s.ask.types.size());
  apply(s.ask, *s.f);
}
void checkSame(const Got& a, const Got& b, const char* what, size_t i) {
  if (a.err) fail("%s unreadable: record %zu error %d", what, i, a.err);
  if (a.type != b.type || a.ts != b.ts || a.ver != b.ver) fail("%s record differs: record %zu is %s instead of %s", what, i, a.asRec().str().c_str(), b.asRec().str().c_str());
  if (a.data != b.data) fail("%s content differs: record %zu %s", what, i, b.asRec().str().c_str());
}
// the sources are still usable, and nothing is called on the finished copy
void checkSources(vector<Source>& src, Rng& r) {
  for (auto& s : src) {
    auto& rd = s.f->reader;
    if (!rd.isOpened()) continue;
    if (rd.getIndex().size() != s.x->ref.recs.size()) fail("source index changed: %zu records", rd.getIndex().size());
    for (int k = 0; k < 2 && !rd.getIndex().empty(); k++) {
      size_t i = r.below(rd.getIndex().size());
      rd.readRecord(rd.getIndex()[i]); // no player is left
      Collector c;
      int st = rd.readRecord(rd.getIndex()[i], &c);
      if (st) fail("source unreadable after the copy: record %zu error %d", i, st);
      Got g = c.last;
      g.data.assign(c.buf.data(), c.buf.size());
      if (g.data != s.x->ref.recs[i].data) fail("source content differs after the copy: record %zu", i);
    }
  }
}
} // namespace

SCENARIO("C15", filter_read, 0.5) {
  ctx.begin();
  Rng& r = ctx.rng;
  MkOpts o;
  o.maxOps = r.chance(0.3) ? 60 : 20;
  o.big = 300;
  vector<Recorded> files;
  files.push_back(makeRecording(ctx, o));
  int n = 3 + (int)r.below(ctx.thorough ? 20 : 8);
  for (int k = 0; k < n; k++) {
    Rng q = ctx.opRng((uint32_t)k);
    if (!ctx.op((uint32_t)k)) continue;
    vector<Source> src(1);
    src[0].x = &files[0];
    auto& ref = files[0].ref;
    src[0].ask = pickAsk(q, ref, true);
    double a = 0, b = 0;
    bool have = dataRange(ref, src[0].ask.streams, a, b);
    resolve(src[0].ask, ref, have, a, b);
    openSource(src[0]);
    auto& f = *src[0].f;
    bool firstOnly = q.chance(0.2), skipOdd = q.chance(0.2);
    vector<size_t> want = src[0].ask.sel;
    set<std::pair<StreamId, T>> seen;
    vector<size_t> kept;
    size_t nroll = 0; // pre-roll isn't subject to the other filters
    while (nroll < want.size() && ref.recs[want[nroll]].ts < src[0].ask.lo) nroll++;
    auto odd = [&ref](size_t i) { return (ref.recs[i].data.size() + (size_t)ref.recs[i].ver) % 2 == 1; };
    map<int64_t, size_t> byOff;
    for (size_t i = 0; i < ref.recs.size(); i++) byOff[ref.recs[i].offset] = i;
    for (size_t i = 0; i < want.size(); i++) {
      if (i >= nroll && firstOnly && !seen.emplace(ref.recs[want[i]].sid, ref.recs[want[i]].type).second) continue;
      if (i >= nroll && skipOdd && odd(want[i])) continue;
      kept.push_back(want[i]);
    }
    f.firstRecordsOnly = firstOnly;
    if (skipOdd) f.skipRecordFilter = [&](const RI& ri) { return odd(byOff.at(ri.fileOffset)); };
    struct P : vrs::StreamPlayer {
      vector<Got> got;
      string buf;
      bool processRecordHeader(const vrs::CurrentRecord& c, vrs::DataReference& d) override {
        buf.assign(c.recordSize, 'x');
        d.useRawData(buf.data(), (uint32_t)buf.size());
        return true;
      }
      void processRecord(const vrs::CurrentRecord& c, uint32_t) override {
        Got g;
        g.sid = c.streamId; g.type = c.recordType; g.ts = c.timestamp; g.ver = c.formatVersion; g.data = buf; g.offset = c.recordInfo->fileOffset;
        got.push_back(g);
      }
    } p;
    for (auto id : f.filter.streams) f.reader.setStreamPlayer(id, &p);
    uint32_t count = f.iterateSafe();
    if (p.got.size() != kept.size()) fail("filtered reading: %zu records instead of %zu (%s)", p.got.size(), kept.size(), askStr(src[0].ask).c_str());
    for (size_t i = 0; i < kept.size(); i++) {
      if (p.got[i].offset != ref.recs[kept[i]].offset) fail("filtered reading: record %zu is another one (%s)", i, askStr(src[0].ask).c_str());
      checkSame(p.got[i], ref.recs[kept[i]], "filtered", i);
    }
    size_t rolled = 0;
    for (auto i : kept) rolled += ref.recs[i].ts < src[0].ask.lo;
    if (count != kept.size() - rolled) fail("filtered reading: count %u instead of %zu", count, kept.size() - rolled);
    if (kept.size() > 5 && kept.size() < ref.recs.size()) nontrivial();
    checkSources(src, q);
  }
  ctx.end();
}

SCENARIO("C15", filter_copy, 1) {
  ctx.begin();
  Rng& r = ctx.rng;
  MkOpts o;
  o.maxOps = r.chance(0.2) ? 60 : 20;
  o.big = 600;
  vector<Recorded> files;
  files.push_back(makeRecording(ctx, o));
  vector<Source> src(1);
  src[0].x = &files[0];
  auto& ref = files[0].ref;
  Ask& ask = src[0].ask;
  ask = pickAsk(r, ref, true);
  double a = 0, b = 0;
  bool have = dataRange(ref, ask.streams, a, b);
  resolve(ask, ref, have, a, b);
  openSource(src[0]);
  CopyOptions co;
  pickOptions(r, co);
  map<string, string> wantTags = ref.tags;
  map<StreamId, StreamId> idMap; // streams are numbered again, in order
  {
    map<RecordableTypeId, uint16_t> next;
    for (auto id : ask.streams) idMap[id] = StreamId(id.getTypeId(), ++next[id.getTypeId()]);
  }
  StreamId tagged;
  if (r.chance(0.2)) {
    auto& t = co.getTagOverrider();
    t.fileTags["session"] = "overridden";
    t.fileTags["added"] = "";
    for (auto& x : t.fileTags) wantTags[x.first] = x.second;
    if (!idMap.empty()) { tagged = idMap.begin()->second; t.streamTags[tagged]["serial"] = "overridden"; }
  }
  string dst = "/sim/out/copy.vrs";
  sim::fs::mkdirs("/sim/out");
  bool faults = r.chance(0.5);
  if (faults) pickCopyFaults(ctx, dst);
  auto del = pickDelegate(r);
  logf("copy: %s pool %u prealloc %d", askStr(ask).c_str(), co.compressionPoolSize, co.preallocateIndex);
  uint64_t before = faultsInjected();
  armFaults(faults);
  int st = vrs::utils::filterCopy(*src[0].f, dst, co, vrs::utils::makeCopier, std::move(del));
  armFaults(false);
  bool faulted = faultsInjected() != before;
  if (st) {
    if (!faulted) fail("status: copying returned %d (%s)", st, vrs::errorCodeToMessage(st).c_str());
    probe("copy reported a failure");
  } else {
    if (faulted) probe("copy succeeded in spite of faults");
    FileView v = readFile(dst);
    if (v.openError) fail("copy unreadable: openFile returned %d", v.openError);
    if (!v.hasIndex) fail("copy without index: %d", v.hasIndex);
    if (v.recs.size() != ask.sel.size()) fail("copy record count: %zu instead of %zu (%s)", v.recs.size(), ask.sel.size(), askStr(ask).c_str());
    if (co.outRecordCopiedCount != ask.sel.size()) fail("copy record count: %u reported, %zu copied", co.outRecordCopiedCount, ask.sel.size());
    // same sequence in each stream, sorted by time
    map<StreamId, vector<size_t>> per;
    for (auto i : ask.sel) per[idMap[ref.recs[i].sid]].push_back(i);
    map<StreamId, size_t> at;
    double last = kLow;
    for (size_t i = 0; i < v.recs.size(); i++) {
      auto& g = v.recs[i];
      if (g.ts < last) fail("copy not sorted: record %zu", i);
      last = g.ts;
      auto& l = per[g.sid];
      size_t& k = at[g.sid];
      if (k >= l.size()) fail("copy stream differs: too many records in %s", g.sid.getNumericName().c_str());
      checkSame(g, ref.recs[l[k++]], "copy", i);
    }
    if (v.tags != wantTags) fail("copy file tags differ: %zu instead of %zu", v.tags.size(), wantTags.size());
    set<StreamId> ids;
    for (auto& m : idMap) ids.insert(m.second);
    if (v.streams != ids) fail("copy streams differ: %zu instead of %zu", v.streams.size(), ids.size());
    for (auto& m : idMap) {
      auto want = ref.streamTags[m.first];
      if (m.second == tagged) want.user["serial"] = "overridden";
      auto& got = v.streamTags[m.second];
      if (got.user != want.user) fail("copy stream tags differ: user tags of %s", m.second.getNumericName().c_str());
      if (got.vrs != want.vrs) fail("copy stream tags differ: VRS tags of %s", m.second.getNumericName().c_str());
    }
    if (ask.sel.size() > 3) nontrivial();
    if (sim::fs::exists(dst + "_1")) probe("copy in several chunks");
  }
  checkSources(src, r);
  src.clear();
  if (sim::fs::openHandles()) fail("files left open: %d", sim::fs::openHandles());
  ctx.end();
}

SCENARIO("C15", filter_merge, 1) {
  ctx.begin();
  Rng& r = ctx.rng;
  MkOpts o;
  o.big = 400;
  int n = 1 + (int)r.below(3) + (r.chance(0.7) ? 1 : 0);
  vector<Recorded> files;
  for (int i = 0; i < n; i++) {
    o.path = "/sim/tmp/rec" + std::to_string(i) + ".vrs";
    o.maxOps = r.chance(0.2) ? 40 : 12;
    o.tags.clear();
    if (r.chance(0.5)) o.tags["common"] = "v" + std::to_string(r.below(2));
    o.tags["only in " + std::to_string(i)] = "x";
    if (r.chance(0.2)) o.tags["session_merged"] = "y";
    if (r.chance(0.3)) o.tags["common_merged"] = "y" + std::to_string(i);
    unique_ptr<vrs::TemporaryRecordableInstanceIdsResetter> reset;
    if (r.chance(0.7)) reset = std::make_unique<vrs::TemporaryRecordableInstanceIdsResetter>();
    files.push_back(makeRecording(ctx, o));
  }
  vector<Source> src((size_t)n);
  bool times = r.chance(0.4);
  double a = 0, b = 0;
  bool have = false;
  for (int i = 0; i < n; i++) {
    src[(size_t)i].x = &files[(size_t)i];
    Rng q(r.next());
    src[(size_t)i].ask = pickAsk(q, files[(size_t)i].ref, times);
    double x, y;
    if (dataRange(files[(size_t)i].ref, src[(size_t)i].ask.streams, x, y)) {
      a = have ? std::min(a, x) : x;
      b = have ? std::max(b, y) : y;
      have = true;
    }
  }
  for (auto& s : src) { resolve(s.ask, s.x->ref, have, a, b); openSource(s); }
  CopyOptions co;
  pickOptions(r, co);
  co.mergeStreams = r.chance(0.5);
  string dst = "/sim/out/merged.vrs";
  sim::fs::mkdirs("/sim/out");
  bool faults = r.chance(0.4);
  if (faults) pickCopyFaults(ctx, dst);
  // expected streams: (type, position among its type) -> the source streams
  struct Out { RecordableTypeId type; vector<std::pair<size_t, StreamId>> from; map<string, string> user, vrs; };
  vector<Out> outs;
  for (size_t k = 0; k < src.size(); k++) {
    map<RecordableTypeId, size_t> pos;
    for (auto id : src[k].ask.streams) {
      size_t p = pos[id.getTypeId()]++;
      Out* t = nullptr;
      if (co.mergeStreams) {
        size_t c = 0;
        for (auto& x : outs) if (x.type == id.getTypeId() && c++ == p) { t = &x; break; }
      }
      auto& tags = src[k].x->ref.streamTags[id];
      if (!t) { outs.push_back({id.getTypeId(), {}, tags.user, tags.vrs}); t = &outs.back(); }
      t->from.emplace_back(k, id);
    }
  }
  vector<FilteredFileReader*> more;
  for (size_t k = 1; k < src.size(); k++) more.push_back(src[k].f.get());
  for (auto& s : src) logf("merge: %s", askStr(s.ask).c_str());
  auto del = pickDelegate(r);
  uint64_t before = faultsInjected();
  armFaults(faults);
  int st = vrs::utils::filterMerge(*src[0].f, more, dst, co, std::move(del));
  armFaults(false);
  bool faulted = faultsInjected() != before;
  if (st) {
    if (!faulted) fail("status: merging returned %d (%s)", st, vrs::errorCodeToMessage(st).c_str());
    probe("merge reported a failure");
  } else {
    if (faulted) probe("merge succeeded in spite of faults");
    FileView v = readFile(dst);
    if (v.openError) fail("merge unreadable: openFile returned %d", v.openError);
    double last = kLow;
    for (size_t i = 0; i < v.recs.size(); i++) {
      if (v.recs[i].err) fail("merge unreadable: record %zu error %d", i, v.recs[i].err);
      if (v.recs[i].ts < last) fail("merge not sorted: record %zu", i);
      last = v.recs[i].ts;
    }
    if (v.streams.size() != outs.size()) fail("merge streams differ: %zu instead of %zu", v.streams.size(), outs.size());
    // the output streams are in the order of creation within a type
    map<RecordableTypeId, vector<StreamId>> byType;
    for (auto id : v.streams) byType[id.getTypeId()].push_back(id);
    map<RecordableTypeId, size_t> pos;
    size_t total = 0;
    for (auto& t : outs) {
      size_t p = pos[t.type]++;
      if (p >= byType[t.type].size()) fail("merge streams differ: type %d", (int)t.type);
      StreamId id = byType[t.type][p];
      // records with the same type and time in one stream count as duplicates
      map<std::pair<T, double>, vector<const Got*>> want;
      for (auto& f : t.from)
        for (auto i : src[f.first].ask.sel) {
          auto& g = src[f.first].x->ref.recs[i];
          if (g.sid == f.second) want[{g.type, g.ts}].push_back(&g);
        }
      total += want.size();
      size_t got = 0;
      for (auto& g : v.recs) {
        if (g.sid != id) continue;
        got++;
        auto it = want.find({g.type, g.ts});
        if (it == want.end()) fail("merge record unexpected: %s", g.asRec().str().c_str());
        bool ok = false;
        for (auto w : it->second) ok = ok || (w->ver == g.ver && w->data == g.data);
        if (!ok) fail("merge content differs: %s", g.asRec().str().c_str());
        if (it->second.size() > 1) probe("duplicates merged");
        want.erase(it);
      }
      if (!want.empty()) fail("merge record missing: %s of %s, %zu missing, %zu found", want.begin()->second[0]->asRec().str().c_str(), id.getNumericName().c_str(), want.size(), got);
      // tags: those of the first source win, other values of user tags are kept under another name
      auto& tg = v.streamTags[id];
      for (auto& x : t.user) if (tg.user[x.first] != x.second) fail("merge stream tags differ: tag %s", x.first.c_str());
      for (auto& x : t.vrs) if (tg.vrs[x.first] != x.second) fail("merge stream tags differ: VRS tag %s", x.first.c_str());
      for (auto& f : t.from)
        for (auto& x : src[f.first].x->ref.streamTags[f.second].user) {
          bool there = false;
          for (auto& y : tg.user) there = there || (y.second == x.second && y.first.rfind(x.first, 0) == 0);
          if (!there) fail("merge stream tags differ: tag %s lost", x.first.c_str());
        }
      if (t.from.size() > 1) probe("streams merged");
    }
    if (v.recs.size() != total) fail("merge record count: %zu instead of %zu", v.recs.size(), total);
    for (size_t k = 0; k < src.size(); k++)
      for (auto& x : src[k].x->ref.tags) {
        if (k == 0 && v.tags[x.first] != x.second) fail("merge file tags differ: tag %s", x.first.c_str());
        bool there = false;
        for (auto& y : v.tags) there = there || (y.second == x.second && y.first.rfind(x.first, 0) == 0);
        if (!there) fail("merge file tags differ: tag %s lost", x.first.c_str());
      }
    if (total > 5 && n > 1) nontrivial();
  }
  checkSources(src, r);
  src.clear();
  if (sim::fs::openHandles()) fail("files left open: %d", sim::fs::openHandles());
  ctx.end();
}

// decimation: at most one data record per interval for a stream, or the closest one to each bucket's time
SCENARIO("C15", filter_decimate, 0.5) {
  ctx.begin();
  Rng& r = ctx.rng;
  MkOpts o;
  o.maxOps = r.chance(0.3) ? 60 : 25;
  o.big = 300;
  vector<Recorded> files;
  files.push_back(makeRecording(ctx, o));
  auto& ref = files[0].ref;
  map<int64_t, size_t> byOff;
  for (size_t i = 0; i < ref.recs.size(); i++) byOff[ref.recs[i].offset] = i;
  int n = 2 + (int)r.below(ctx.thorough ? 12 : 5);
  for (int k = 0; k < n; k++) {
    Rng q = ctx.opRng((uint32_t)k);
    if (!ctx.op((uint32_t)k)) continue;
    vector<Source> src(1);
    src[0].x = &files[0];
    Ask& ask = src[0].ask;
    ask = pickAsk(q, ref, true);
    double a = 0, b = 0;
    bool have = dataRange(ref, ask.streams, a, b);
    resolve(ask, ref, have, a, b);
    openSource(src[0]);
    auto& f = *src[0].f;
    size_t nroll = 0;
    while (nroll < ask.sel.size() && ref.recs[ask.sel[nroll]].ts < ask.lo) nroll++;
    vrs::utils::DefaultDecimator::Params dp;
    bool buckets = q.chance(0.5);
    vector<set<size_t>> groups; // exactly one record of each is expected
    double span = have && b > a && b - a < 1e9 ? b - a : 1;
    if (buckets) {
      double t0 = 0, iv = 1. / 1024;
      while (iv * (double)(2 + q.below(30)) < span) iv *= 2;
      if (q.chance(0.3)) iv *= 1.75;
      dp.bucketInterval = iv;
      dp.bucketMaxTimestampDelta = iv * (double)q.below(8) / 16;
      bool exact = true, first = true;
      map<std::pair<StreamId, double>, set<size_t>> best;
      for (size_t i = nroll; i < ask.sel.size(); i++) {
        auto& g = ref.recs[ask.sel[i]];
        if (g.type != T::DATA) { groups.push_back({ask.sel[i]}); continue; }
        if (std::fabs(g.ts) > 1e6 || g.ts * 4096 != std::floor(g.ts * 4096)) { exact = false; break; }
        if (first) t0 = g.ts;
        first = false;
        double m = std::floor((g.ts - t0) / iv + 0.5), T0 = t0 + m * iv, d = std::fabs(g.ts - T0);
        if (d > dp.bucketMaxTimestampDelta) continue;
        auto& s = best[{g.sid, m}];
        if (!s.empty()) {
          double d0 = std::fabs(ref.recs[*s.begin()].ts - T0);
          if (d0 < d) continue;
          if (d0 > d) s.clear();
        }
        s.insert(ask.sel[i]);
      }
      if (!exact) continue;
      for (auto& x : best) groups.push_back(x.second);
      if (best.size() > 2) probe("buckets");
    } else {
      map<StreamId, double> iv, last;
      for (auto id : ref.streams) {
        if (q.chance(0.4)) continue;
        double d = span * (double)q.below(9) / 8 / (double)(1 + q.below(8));
        string name = q.chance(0.5) ? id.getNumericName() : std::to_string((int)id.getTypeId());
        dp.decimationIntervals.emplace_back(name, d);
        for (auto x : ref.streams)
          if (x == id || (name.find('-') == string::npos && x.getTypeId() == id.getTypeId())) iv[x] = d;
      }
      for (size_t i = nroll; i < ask.sel.size(); i++) {
        auto& g = ref.recs[ask.sel[i]];
        if (g.type == T::DATA && iv.count(g.sid)) {
          auto l = last.find(g.sid);
          if (l != last.end() && g.ts < l->second + iv[g.sid]) { probe("decimated"); continue; }
          last[g.sid] = g.ts;
        }
        groups.push_back({ask.sel[i]});
      }
      if (dp.decimationIntervals.empty()) dp.bucketInterval = 0;
    }
    dp.decimate(f);
    for (size_t i = 0; i < nroll; i++) groups.push_back({ask.sel[i]});
    map<size_t, size_t> groupOf;
    for (size_t i = 0; i < groups.size(); i++)
      for (auto x : groups[i]) groupOf[x] = i;
    vector<int> seen(groups.size());
    const char* how = buckets ? "buckets" : "intervals";
    auto take = [&](size_t i) {
      auto g = groupOf.find(i);
      if (g == groupOf.end()) fail("decimation with %s: record %zu %s wasn't to be kept (%s)", how, i, ref.recs[i].asRec().str().c_str(), askStr(ask).c_str());
      if (seen[g->second]++) fail("decimation with %s: record %zu %s kept twice, or with another one", how, i, ref.recs[i].asRec().str().c_str());
    };
    size_t count = 0;
    if (q.chance(0.5)) {
      struct P : vrs::StreamPlayer {
        vector<int64_t> got;
        bool processRecordHeader(const vrs::CurrentRecord& c, vrs::DataReference&) override { got.push_back(c.recordInfo->fileOffset); return false; }
      } p;
      for (auto id : f.filter.streams) f.reader.setStreamPlayer(id, &p);
      f.iterateSafe();
      for (auto id : f.filter.streams) f.reader.setStreamPlayer(id, nullptr);
      map<StreamId, double> last;
      for (auto off : p.got) {
        size_t i = byOff.at(off);
        take(i);
        auto& g = ref.recs[i];
        auto l = last.emplace(g.sid, g.ts);
        if (!buckets && l.first->second > g.ts) fail("decimation: order of records: %zu", i);
        l.first->second = g.ts;
      }
      count = p.got.size();
    } else {
      CopyOptions co;
      pickOptions(q, co);
      sim::fs::mkdirs("/sim/out");
      string dst = "/sim/out/dec" + std::to_string(k) + ".vrs";
      int st = vrs::utils::filterCopy(f, dst, co, vrs::utils::makeCopier, pickDelegate(q));
      if (st) fail("status: decimated copy returned %d", st);
      FileView v = readFile(dst);
      if (v.openError) fail("decimated copy unreadable: openFile returned %d", v.openError);
      map<StreamId, StreamId> back;
      map<RecordableTypeId, uint16_t> next;
      for (auto id : ask.streams) back[StreamId(id.getTypeId(), ++next[id.getTypeId()])] = id;
      std::multimap<string, size_t> where;
      auto key = [](const Got& g, StreamId id) { return id.getNumericName() + "/" + std::to_string((int)g.type) + "/" + strTs(g.ts) + "/" + std::to_string(g.ver) + "/" + g.data; };
      for (auto& x : groups)
        for (auto i : x) where.emplace(key(ref.recs[i], ref.recs[i].sid), i);
      double last = kLow;
      for (auto& g : v.recs) {
        if (g.ts < last) fail("decimated copy not sorted: %s", g.asRec().str().c_str());
        last = g.ts;
        auto w = where.find(key(g, back[g.sid]));
        if (w == where.end()) fail("decimation with %s: copied record %s wasn't to be kept", how, g.asRec().str().c_str());
        take(w->second);
        // the others of the group can't be found any more; identical records are interchangeable
        where.erase(w);
      }
      count = v.recs.size();
    }
    if (count != groups.size()) fail("decimation with %s: %zu records instead of %zu (%s)", how, count, groups.size(), askStr(ask).c_str());
    if (count > 5 && count < ask.sel.size()) nontrivial();
    checkSources(src, q);
  }
  ctx.end();
}
