// C20: stream identities.
#include "common.h"
#include <algorithm>
using namespace w;
using namespace sim;
using sim::fail;

namespace {
class Bare : public vrs::Recordable {
 public:
  explicit Bare(RecordableTypeId t, const string& flavor = "f") : vrs::Recordable(t, flavor) {}
  const Record* createConfigurationRecord() override { return rec(Record::Type::CONFIGURATION); }
  const Record* createStateRecord() override { return rec(Record::Type::STATE); }
  const Record* rec(Record::Type t) {
    string d = "c" + getSerialNumber();
    return createRecord(0.5, t, 1, vrs::DataSource(vrs::DataSourceChunk(d.data(), d.size())));
  }
  void data(double ts, const string& d) { createRecord(ts, Record::Type::DATA, 1, vrs::DataSource(vrs::DataSourceChunk(d.data(), d.size()))); }
};
struct Made {
  RecordableTypeId type;
  uint16_t id;
  string serial;
  int scope; // 0: none, otherwise a number unique to the scope
};
} // namespace

// streams are created and destroyed by several threads, some within (nested) temporary resets
SCENARIO("C20", ids_threads, 3) {
  Rng& r = ctx.rng;
  int nt = 1 + (int)r.below(4), nOps = 3 + (int)r.below(15), nTypes = 1 + (int)r.below(3);
  double pScope = r.chance(0.7) ? 0.3 : 0, pDestroy = 0.4 * r.unit();
  if (r.chance(0.3)) ctx.sched.pSpurious = 0.2;
  ctx.begin();
  {
    vrs::Recordable::resetNewInstanceIds();
    vector<Made> made;
    int scopes = 0;
    auto add = [&](const Bare& b, int scope) {
      noPreempt(1);
      made.push_back({b.getRecordableTypeId(), b.getRecordableInstanceId(), b.getSerialNumber(), scope});
      noPreempt(-1);
    };
    vector<std::thread> th;
    for (int t = 0; t < nt; t++)
      th.emplace_back([&, t] {
        vector<unique_ptr<Bare>> mine;
        std::function<void(int, int, Rng&)> scoped = [&](int depth, int n, Rng& g) {
          vrs::TemporaryRecordableInstanceIdsResetter reset;
          noPreempt(1);
          int me = ++scopes;
          noPreempt(-1);
          for (int k = 0; k < n; k++) {
            mine.push_back(std::make_unique<Bare>(kTypes[g.below((uint64_t)nTypes)]));
            add(*mine.back(), me);
            if (g.chance(0.3)) sleepNs((int64_t)g.below(100000));
            if (depth < 3 && g.chance(0.25)) scoped(depth + 1, 1 + (int)g.below(3), g);
          }
        };
        for (int k = 0; k < nOps; k++) {
          if (!ctx.op(100 + t * 30 + k)) continue;
          Rng g = ctx.opRng(100 + t * 30 + k);
          if (g.chance(0.2)) sleepNs((int64_t)g.below(100000));
          if (g.chance(pScope)) scoped(0, 1 + (int)g.below(4), g);
          else {
            mine.push_back(std::make_unique<Bare>(kTypes[g.below((uint64_t)nTypes)]));
            add(*mine.back(), 0);
          }
          if (!mine.empty() && g.chance(pDestroy)) mine.erase(mine.begin() + (long)g.below(mine.size()));
        }
      });
    for (auto& t : th) t.join();
    // one more of each, later
    for (int k = 0; k < nTypes; k++) { Bare b(kTypes[k]); add(b, 0); }
    set<string> serials;
    map<std::pair<int, int>, vector<uint16_t>> ids;
    for (auto& m : made) {
      if (m.serial.empty() || !serials.insert(m.serial).second) fail("serial number not unique: \"%s\"", m.serial.c_str());
      ids[{m.scope, (int)m.type}].push_back(m.id);
    }
    for (auto& [k, v] : ids) {
      std::sort(v.begin(), v.end());
      for (size_t i = 0; i < v.size(); i++) {
        if (i && v[i] == v[i - 1]) fail("two streams got the same identity %s: id %u%s", vrs::toString((RecordableTypeId)k.second).c_str(), v[i], k.first ? " within one temporary reset" : "");
        if (v[i] != i + 1) fail("stream numbering is not continuous: id %u where %zu was next%s", v[i], i + 1, k.first ? " within a temporary reset" : " (resets restore the numbering)");
      }
    }
    if (nt > 1 && made.size() > 3) nontrivial();
    if (scopes) probe("temporary reset", (uint64_t)scopes);
    for (auto& m : made) hist((uint64_t)m.id * 100 + (uint64_t)m.scope);
  }
  ctx.end();
}

// a writer takes a stream once, and refuses a second one with the same identity
SCENARIO("C20", ids_writer, 2) {
  Rng& r = ctx.rng;
  int nGroups = 1 + (int)r.below(3), nt = 1 + (int)r.below(3);
  int type = (int)r.below(3);
  bool late = r.chance(0.4);
  ctx.begin();
  {
    vrs::Recordable::resetNewInstanceIds();
    // each group numbers its streams from 1: the same identities appear in every group
    vector<vector<unique_ptr<Bare>>> groups;
    for (int g = 0; g < nGroups; g++) {
      vrs::TemporaryRecordableInstanceIdsResetter reset;
      groups.emplace_back();
      for (int k = 0, n = 1 + (int)r.below(3); k < n; k++) groups.back().push_back(std::make_unique<Bare>(kTypes[(type + (int)r.below(2)) % 6]));
    }
    vector<Bare*> all;
    for (auto& g : groups) for (auto& b : g) all.push_back(b.get());
    vrs::RecordFileWriter wr;
    string path = "/sim/tmp/ids.vrs";
    auto addSome = [&](uint64_t base, bool threads) {
      vector<std::thread> th;
      auto some = [&](int t) {
        for (int k = 0; k < 6; k++) {
          if (!ctx.op((uint32_t)(base + (uint64_t)t * 10 + (uint64_t)k))) continue;
          Rng g = ctx.opRng(base + (uint64_t)t * 10 + (uint64_t)k);
          wr.addRecordable(all[g.below(all.size())]);
        }
      };
      if (!threads) { some(0); return; }
      for (int t = 0; t < nt; t++) th.emplace_back(some, t);
      for (auto& t : th) t.join();
    };
    auto check = [&](const vector<vrs::Recordable*>& have, const vector<vrs::Recordable*>& before) {
      set<StreamId> ids;
      for (auto* b : have) if (!ids.insert(b->getStreamId()).second) fail("a writer holds two streams with the same identity: %s", b->getStreamId().getName().c_str());
      for (auto* b : before) if (std::find(have.begin(), have.end(), b) == have.end()) fail("a writer lost a stream when another was added: %s", b->getStreamId().getName().c_str());
    };
    wr.addRecordable(all[r.below(all.size())]);
    auto first = wr.getRecordables();
    if (first.size() != 1) fail("a stream was not added");
    addSome(100, true);
    auto early = wr.getRecordables();
    check(early, first);
    if (late) {
      if (wr.createFileAsync(path)) fail("status: createFileAsync failed");
      addSome(300, r.chance(0.5));
    }
    auto have = wr.getRecordables();
    check(have, early);
    // an identity is refused only when it is taken
    for (auto* b : all) {
      if (r.chance(0.5)) continue;
      bool taken = false;
      for (auto* h : wr.getRecordables()) if (h->getStreamId() == b->getStreamId()) taken = true;
      auto was = wr.getRecordables();
      wr.addRecordable(b);
      auto now = wr.getRecordables();
      check(now, was);
      if (now.size() != was.size() + (taken ? 0 : 1)) fail("adding a stream whose identity is %s changed the writer's streams from %zu to %zu", taken ? "taken" : "free", was.size(), now.size());
      if (taken) probe("identity refused");
    }
    have = wr.getRecordables();
    int n = 0;
    map<StreamId, vector<string>> want;
    for (auto* b : all) {
      bool in = std::find(have.begin(), have.end(), b) != have.end();
      if (late && b != have[0] && !in) {} // records of refused streams go nowhere
      for (int k = 0; k < 2; k++) {
        string d = "data " + b->getSerialNumber() + " " + std::to_string(k);
        b->data(1 + n++, d);
        if (in) want[b->getStreamId()].push_back(d);
      }
    }
    int st = late ? wr.waitForFileClosed() : wr.writeToFile(path);
    if (st) fail("status: writing failed with %d", st);
    FileView v = readFile(path);
    if (v.openError) fail("recording can't be opened: %d", v.openError);
    map<StreamId, vector<string>> got;
    for (auto& g : v.recs) if (g.type == Record::Type::DATA) got[g.sid].push_back(g.data);
    if (got != want) fail("recording mixes up streams of the same identity: %zu streams with data expected, %zu found", want.size(), got.size());
    for (auto* b : have) {
      auto it = v.streamTags.find(b->getStreamId());
      const string key = vrs::Recordable::getSerialNumberTagName();
      if (it == v.streamTags.end() || !it->second.vrs.count(key)) fail("recording lacks the tags of a stream: %s", b->getStreamId().getName().c_str());
      if (it->second.vrs.at(key) != b->getSerialNumber()) fail("recording has the serial number of another stream");
    }
    if (v.streams.size() != have.size()) fail("recording has %zu streams, expected %zu", v.streams.size(), have.size());
    nontrivial();
    hist((uint64_t)n);
    hist(have.size());
  }
  ctx.end();
}
