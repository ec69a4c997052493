#include "rec.h"
#include "faultpick.h"
using namespace w;
using sim::fail;
using namespace sim;

namespace {
struct Ev { string path; size_t index; bool last; string content; };
// listener which may delete the chunk, as the documentation allows
class Listener : public vrs::NewChunkHandler {
 public:
  Listener(std::shared_ptr<vector<Ev>> l, bool d, bool* g) : log(std::move(l)), del(d), gone(g) {}
  ~Listener() override { *gone = true; }
  void newChunk(const string& path, size_t index, bool last) override {
    log->push_back({path, index, last, fs::exists(path) ? fs::content(path) : "<missing>"});
    if (del && fs::exists(path)) fs::erase(path);
  }
  std::shared_ptr<vector<Ev>> log;
  bool del;
  bool* gone;
};
void checkChunkLimits(const vector<string>& paths, const RawFile& raw, uint64_t limit, bool splitFile) {
  // chunk limits in the concatenated file
  vector<std::pair<uint64_t, uint64_t>> span;
  uint64_t at = 0;
  for (auto& p : paths) { uint64_t n = fs::content(p).size(); span.emplace_back(at, at + n); at += n; }
  size_t first = splitFile ? 1 : 0;
  vector<size_t> recs(span.size());
  for (auto& u : raw.user) {
    size_t k = 0;
    while (k < span.size() && u.off >= span[k].second) k++;
    if (k >= span.size() || u.off + u.size > span[k].second)
      fail("record split over two chunks: offset %lu size %u", (unsigned long)u.off, u.size);
    recs[k]++;
  }
  for (size_t k = first; k + 1 < span.size(); k++) {
    uint64_t n = span[k].second - span[k].first;
    bool bare = k == 0 ? recs[k] == 0 : recs[k] <= 1; // only what can't be divided
    if (n > limit && !bare) fail("chunk larger than the limit: chunk %zu of %zu has %lu bytes and %zu records, limit %lu", k, span.size(), (unsigned long)n, recs[k], (unsigned long)limit);
  }
}
void checkEvents(const vector<Ev>& ev, const vector<string>& paths, const map<string, string>& finalContent, bool complete) {
  set<string> seen;
  for (size_t i = 0; i < ev.size(); i++) {
    auto& e = ev[i];
    if (!seen.insert(e.path).second) fail("chunk announced more than once: %s", e.path.c_str());
    size_t idx = 0;
    while (idx < paths.size() && paths[idx] != e.path) idx++;
    if (idx == paths.size()) fail("announced chunk is not part of the file: %s", e.path.c_str());
    if (idx != e.index) fail("chunk announced with another index: %s announced as %zu", e.path.c_str(), e.index);
    auto it = finalContent.find(e.path);
    if (it == finalContent.end()) fail("announced chunk is missing: %s", e.path.c_str());
    if (it->second != e.content) fail("chunk announced before it had its final content: %s had %zu bytes, now %zu", e.path.c_str(), e.content.size(), it->second.size());
    if (e.last && i + 1 != ev.size()) fail("notification flagged as last is not the last one: %s", e.path.c_str());
  }
  if (complete) {
    if (ev.empty() || !ev.back().last) fail("no notification flagged as last");
    for (auto& p : paths) if (!seen.count(p)) fail("chunk never announced: %s", p.c_str());
  }
}
} // namespace

// sizes around the limit
static void chunkRun(Ctx& ctx, bool faults) {
  Rng& r = ctx.rng;
  bool split = r.chance(0.6), handler = split && r.chance(0.85), del = handler && !faults && r.chance(0.3);
  int pool = r.chance(0.4) ? 1 + (int)r.below(3) : 0;
  int streams = 1 + (int)r.below(2), sessions = r.chance(0.2) ? 2 : 1;
  bool compress = r.chance(0.4), autoW = r.chance(0.3), producers = r.chance(0.3);
  bool async = !faults && r.chance(0.15);
  string engine = async ? "ioengine=" + string(r.chance(0.7) ? "aio" : "psync") + "&direct=1&buffer_size=131072&buffer_count=3" : "";
  if (r.chance(0.3)) fs::setWriteLatency(0, (int64_t)r.below(3000000));
  if (faults) {
    pickWriteFaults(ctx, false, true);
    if (r.chance(0.6)) {
      faultCfg().prob[fOpenFail] = 0.3 + 0.4 * r.unit();
      faultCfg().pathFilter = [](const string& p) { return p.find("rec") != string::npos; };
    }
  }
  ctx.begin();
  {
    Model m;
    m.recs.reserve(3000);
    std::atomic<double> clock{1};
    m.clock = [&] { return clock.load(); };
    vector<unique_ptr<TestStream>> ss;
    for (int i = 0; i < streams; i++) {
      ss.push_back(std::make_unique<TestStream>(m, kTypes[i], "p", r.below(60)));
      ss.back()->setCompression(compress ? pickPreset(r) : vrs::CompressionPreset::None);
    }
    Writer wr;
    if (async) wr.setWriteFileHandler(std::make_unique<vrs::AsyncDiskFile>());
    for (auto& s : ss) wr.addRecordable(s.get());
    if (pool) wr.setCompressionThreadPoolSize((size_t)pool);
    vector<std::shared_ptr<vector<Ev>>> logs;
    vector<size_t> doneCount;
    bool gone[8] = {};
    if (faults) { initFaults(ctx.seed); armFaults(true); }
    for (int k = 0; k < sessions; k++) {
      string base = "/sim/tmp/rec" + std::to_string(k) + ".vrs";
      const uint64_t limit = 1 << 20;
      logs.push_back(std::make_shared<vector<Ev>>());
      uint64_t s0 = m.recs.size();
      int st;
      string u = async ? "diskfile:" + base + "?" + engine : base;
      if (split) st = wr.createChunkedFile(u, 1, handler ? std::make_unique<Listener>(logs.back(), del, &gone[k]) : nullptr);
      else { wr.setMaxChunkSizeMB(1); st = wr.createFileAsync(u); }
      if (st) {
        if (!faults) fail("status: file creation returned %d with no fault", st);
        doneCount.push_back(logs.back()->size());
        // a recording which was never started must not be announced by a later one
        continue;
      }
      if (r.chance(0.3)) { // refused, and without effect on this recording
        static bool dummy;
        auto other = std::make_shared<vector<Ev>>();
        int e = wr.createChunkedFile("/sim/tmp/refused.vrs", 2, std::make_unique<Listener>(other, false, &dummy));
        if (e == 0) fail("second recording accepted while one is in progress");
        probe("second recording refused");
      }
      if (autoW) wr.autoWriteRecordsAsync([&] { return clock.load() - 0.5; }, 0.2);
      auto body = [&](int b) {
        uint64_t pos = 0; // estimate of the position in the chunk
        for (int i = 0, n = 3 + (int)Rng(ctx.seed + b).below(ctx.thorough ? 16 : 7); i < n; i++) {
          if (!ctx.op(100 + k * 200 + b * 60 + i)) continue;
          Rng q = ctx.opRng(100 + k * 200 + b * 60 + i);
          clock = clock.load() + 0.1;
          size_t size;
          const uint64_t H = 32;
          uint64_t left = limit > pos + H ? limit - pos - H : 0;
          switch (q.below(6)) {
            case 0: size = left + q.below(5) >= 2 ? left + q.below(5) - 2 : 0; break; // right at the limit
            case 1: size = limit - H + q.below(5) - 2; break;                           // a whole chunk
            case 2: size = limit + q.below(300000); break;                              // more than a chunk
            case 3: size = q.below(2000); break;
            default: size = 100000 + q.below(500000);
          }
          if (size > 3 * limit) size = 0;
          uint64_t id;
          { noPreempt(1); id = m.nextId++; noPreempt(-1); }
          string d = makePayload(id, size, compress ? (int)q.below(3) : kCompressible);
          auto& s = ss[q.below(ss.size())];
          if (q.chance(0.2)) s->makeDirect(clock.load(), Record::Type::DATA, 1, d.substr(0, d.size() / 3), d.substr(d.size() / 3));
          else s->make(clock.load(), Record::Type::DATA, 1, d);
          pos = pos + H + size >= limit ? H + size : pos + H + size;
          if (!autoW && q.chance(0.4)) wr.writeRecordsAsync(Record::kMaxTimestamp);
          if (q.chance(0.1)) sleepNs((int64_t)q.below(500000000));
        }
      };
      if (producers) {
        std::thread t1([&] { body(1); });
        body(0);
        t1.join();
      } else body(0);
      st = wr.waitForFileClosed();
      doneCount.push_back(logs.back()->size());
      if (handler && !gone[k]) fail("chunk listener not released when the file is closed");
      if (st && !faults) fail("status: waitForFileClosed returned %d with no fault", st);
      bool had = faultsInjected() > 0;
      armFaults(false);
      // the final content of each chunk
      map<string, string> fin;
      vector<string> paths;
      if (del) for (auto& e : *logs.back()) fs::setContent(e.path, e.content);
      paths = chunkPaths(base);
      for (auto& p : paths) fin[p] = fs::content(p);
      if (handler) checkEvents(*logs.back(), paths, fin, st == 0);
      if (st == 0) {
        RawFile raw = rawParse(concatChunks(paths), split ? (int64_t)fs::content(base).size() : -1);
        checkRawStructure(raw, "in the chunked recording");
        if (!had) checkChunkLimits(paths, raw, limit, split);
        vector<const MRec*> must;
        for (size_t i = k ? s0 : 0; i < m.recs.size(); i++) must.push_back(&m.recs[i]);
        FileView v = readFile(base);
        // a failed session takes its records with it, but what it did not collect comes later
        bool first = k == 0 || !had;
        checkContents(v, must, {}, "in the chunked recording");
        (void)first;
        // put one after the other, the chunks are the same file
        fs::setContent("/sim/tmp/one.vrs", concatChunks(paths));
        FileView o = readFile("/sim/tmp/one.vrs");
        if (o.openError) fail("concatenated chunks unreadable: %d", o.openError);
        if (o.recs.size() != v.recs.size() || o.tags != v.tags || o.streams != v.streams) fail("concatenated chunks differ from the chunked file: %zu records instead of %zu", o.recs.size(), v.recs.size());
        for (size_t i = 0; i < o.recs.size(); i++)
          if (o.recs[i].data != v.recs[i].data || o.recs[i].offset != v.recs[i].offset || o.recs[i].err || o.recs[i].ts != v.recs[i].ts)
            fail("concatenated chunks differ from the chunked file: record %zu", i);
        if (paths.size() > (split ? 2u : 1u)) { probe("several chunks"); nontrivial(); }
      } else probe("session ended with an error");
      if (faults) armFaults(true);
    }
    armFaults(false);
    // no listener hears of another recording
    int st = wr.createFileAsync("/sim/tmp/plain.vrs");
    if (st && !faults) fail("status: createFileAsync returned %d", st);
    if (!st) wr.waitForFileClosed();
    for (size_t k = 0; k < logs.size(); k++)
      if (logs[k]->size() != doneCount[k]) fail("chunk listener told of another recording: %s", logs[k]->back().path.c_str());
  }
  ctx.end();
}
SCENARIO("C06", chunk_sizes, 2.5) { chunkRun(ctx, false); }
SCENARIO("C06", chunk_faults, 1.5) { chunkRun(ctx, true); }
