#include "rec.h"
using namespace w;
using sim::fail;
using namespace sim;

namespace {
struct Mem { // what one stream holds in memory, sorted by time, then creation
  vector<MRec> recs;
  void insert(const MRec& m) {
    auto it = recs.end();
    while (it != recs.begin() && (it - 1)->ts > m.ts) --it;
    recs.insert(it, m);
  }
  void purge(double limit) {
    const MRec *st = nullptr, *cf = nullptr;
    for (auto& m : recs) {
      if (!(m.ts < limit)) continue;
      if (m.type == Record::Type::STATE) st = &m;
      if (m.type == Record::Type::CONFIGURATION) cf = &m;
    }
    uint64_t sq = st ? st->seq : 0, cq = cf ? cf->seq : 0;
    vector<MRec> out;
    for (auto& m : recs)
      if (!(m.ts < limit) || m.type == Record::Type::TAGS || m.seq == sq || m.seq == cq) out.push_back(m);
    recs.swap(out);
  }
  void take(double limit, vector<MRec>& to) {
    size_t n = 0;
    while (n < recs.size() && recs[n].ts < limit) n++;
    to.insert(to.end(), recs.begin(), recs.begin() + n);
    recs.erase(recs.begin(), recs.begin() + n);
  }
};
} // namespace

// one control thread: memory follows the model exactly
SCENARIO("C09", purge_model, 3) {
  Rng& r = ctx.rng;
  int nOps = 10 + (int)r.below(ctx.thorough ? 120 : 60), tsMode = (int)r.below(4);
  int pool = r.chance(0.3) ? 1 + (int)r.below(3) : 0;
  ctx.begin();
  {
    Model m;
    m.recs.reserve(5000);
    double now = 10;
    m.clock = [&] { return now; };
    vector<unique_ptr<TestStream>> ss;
    for (int i = 0, n = 1 + (int)r.below(3); i < n; i++) {
      ss.push_back(std::make_unique<TestStream>(m, kTypes[i], "p", r.below(60)));
      ss.back()->setCompression(pickPreset(r));
    }
    vector<Mem> mem(ss.size());
    Writer wr;
    for (auto& s : ss) wr.addRecordable(s.get());
    if (pool) wr.setCompressionThreadPoolSize((size_t)pool);
    size_t seen = 0;
    auto absorb = [&] { // records made since the last look go in the memory model
      for (; seen < m.recs.size(); seen++)
        for (size_t i = 0; i < ss.size(); i++) if (ss[i]->getStreamId() == m.recs[seen].sid) mem[i].insert(m.recs[seen]);
    };
    vector<MRec> file;
    bool open = false;
    int nFile = 0, purged = 0;
    string path;
    auto collect = [&](double limit) {
      absorb();
      for (size_t i = 0; i < ss.size(); i++) {
        if (ss[i]->isRecordableActive()) mem[i].take(limit, file);
        else mem[i].purge(limit);
      }
    };
    auto checkFile = [&] {
      FileView v = readFile(path);
      vector<const MRec*> must;
      for (auto& x : file) must.push_back(&x);
      checkContents(v, must, {}, "in a recording with purging and batch limits");
      nFile++;
      file.clear();
    };
    auto tsNow = [&](Rng& q) {
      switch (tsMode) {
        case 0: return now += 0.1;
        case 1: if (q.chance(0.4)) now += 1; return now;
        case 2: now += 0.5; return now - (double)q.below(6);
        default: if (q.chance(0.1)) now += 1; return now;
      }
    };
    auto limit = [&](Rng& q) { return q.chance(0.15) ? Record::kMaxTimestamp : q.chance(0.1) ? -1e9 : now + 1 - (double)q.below(7); };
    for (int k = 0; k < nOps; k++) {
      if (!ctx.op(k)) continue;
      Rng q = ctx.opRng(k);
      auto& s = ss[q.below(ss.size())];
      switch (q.below(14)) {
        case 0: case 1: case 2: case 3: case 4: case 5: {
          int t = (int)q.below(5);
          auto type = t == 0 ? Record::Type::STATE : t == 1 ? Record::Type::CONFIGURATION : Record::Type::DATA;
          s->make(tsNow(q), type, 1, makePayload(m.nextId++, pickSize(q, 2500), (int)q.below(3)));
          break;
        }
        case 6: case 7: {
          double l = limit(q);
          absorb();
          wr.purgeOldRecords(l, q.chance(0.7));
          size_t a = 0, b = 0;
          for (auto& x : mem) { a += x.recs.size(); x.purge(l); b += x.recs.size(); }
          if (b < a) { purged++; probe("purge removed records"); }
          break;
        }
        case 8: case 9: case 10:
          if (open) {
            double l = limit(q);
            int st = wr.writeRecordsAsync(l);
            if (st) fail("status: writeRecordsAsync returned %d with no fault", st);
            collect(l);
          } else {
            path = "/sim/tmp/p" + std::to_string(nFile) + ".vrs";
            int st = wr.createFileAsync(path);
            if (st) fail("status: createFileAsync returned %d with no fault", st);
            open = true;
          }
          break;
        case 11:
          if (open) {
            int st = wr.waitForFileClosed();
            if (st) fail("status: waitForFileClosed returned %d with no fault", st);
            collect(Record::kMaxTimestamp);
            open = false;
            checkFile();
          } else {
            path = "/sim/tmp/p" + std::to_string(nFile) + ".vrs";
            int st = wr.writeToFile(path);
            if (st) fail("status: writeToFile returned %d with no fault", st);
            collect(Record::kMaxTimestamp);
            checkFile();
          }
          break;
        case 12: s->setRecordableIsActive(false); probe("stream deactivated"); break;
        default: s->setRecordableIsActive(true);
      }
      absorb();
    }
    if (open) {
      int st = wr.waitForFileClosed();
      if (st) fail("status: waitForFileClosed returned %d with no fault", st);
      collect(Record::kMaxTimestamp);
      checkFile();
    }
    for (auto& s : ss) s->setRecordableIsActive(true);
    path = "/sim/tmp/last.vrs";
    int st = wr.writeToFile(path);
    if (st) fail("status: writeToFile returned %d with no fault", st);
    collect(Record::kMaxTimestamp);
    checkFile();
    if (m.recs.size() > 4) nontrivial();
  }
  ctx.end();
}
// automatic purging while streams are buffering, paused while recording, resumed afterwards
SCENARIO("C09", purge_auto, 2) {
  Rng& r = ctx.rng;
  int nProd = 1 + (int)r.below(2), nRec = 4 + (int)r.below(20), sessions = 1 + (int)r.below(2);
  double keep = 1 + (double)r.below(6), delay = 0.05 + r.unit();
  int pool = r.chance(0.3) ? 2 : 0;
  bool autoWrite = r.chance(0.4), startLate = r.chance(0.2);
  if (r.chance(0.3)) ctx.sched.pSpurious = 0.2;
  if (r.chance(0.3)) fs::setWriteLatency(0, (int64_t)r.below(20000000));
  ctx.begin();
  {
    Model m;
    m.recs.reserve(5000);
    std::atomic<double> clock{10};
    m.clock = [&] { return clock.load(); };
    vector<unique_ptr<TestStream>> ss;
    for (int i = 0, n = 1 + (int)r.below(3); i < n; i++) {
      ss.push_back(std::make_unique<TestStream>(m, kTypes[i], "p", r.below(60)));
      ss.back()->setCompression(pickPreset(r));
    }
    auto wr = std::make_unique<Writer>();
    for (auto& s : ss) wr->addRecordable(s.get());
    if (pool) wr->setCompressionThreadPoolSize((size_t)pool);
    std::mutex mx;
    double maxCut = -1e9; // no purge ever used a later limit
    auto startPurge = [&] {
      int e = wr->autoPurgeRecords([&] {
        std::lock_guard<std::mutex> g(mx);
        double c = clock.load() - keep;
        maxCut = std::max(maxCut, c);
        return c;
      }, delay);
      if (e) fail("status: autoPurgeRecords returned %d", e);
    };
    if (!startLate) startPurge();
    vector<Session> S;
    auto produce = [&](int base, int n, bool latecomers) {
      for (int k = 0; k < n; k++) {
        if (!ctx.op((uint32_t)(base + k))) continue;
        Rng q = ctx.opRng((uint64_t)(base + k));
        clock = clock.load() + 0.3;
        double ts = clock.load();
        if (latecomers && q.chance(0.4)) ts -= keep + (double)q.below(6); // older than the purge limit
        auto type = q.chance(0.7) ? Record::Type::DATA : q.chance(0.5) ? Record::Type::STATE : Record::Type::CONFIGURATION;
        uint64_t id;
        { sim::noPreempt(1); id = m.nextId++; sim::noPreempt(-1); }
        ss[q.below(ss.size())]->make(ts, type, 1, makePayload(id, pickSize(q, 1500), (int)q.below(3)));
        if (q.chance(0.4)) sleepNs((int64_t)q.below(800000000));
      }
    };
    for (int k = 0; k < sessions; k++) {
      produce(1000 + k * 100, (int)r.below(8), true); // live buffer
      Session s;
      s.path = "/sim/tmp/a" + std::to_string(k) + ".vrs";
      double memClock = clock.load();
      (void)memClock;
      s.createBegin = stepCount();
      s.createStatus = wr->createFileAsync(s.path);
      s.createEnd = stepCount();
      if (s.createStatus) fail("status: createFileAsync returned %d with no fault", s.createStatus);
      if (startLate) { startPurge(); startLate = false; }
      if (autoWrite) wr->autoWriteRecordsAsync([&] { return clock.load() - 100; }, 0.3);
      vector<std::thread> th;
      for (int p = 0; p < nProd; p++) th.emplace_back([&, p] { produce(100 + k * 400 + p * 100, nRec, true); });
      for (auto& t : th) t.join();
      s.closeBegin = stepCount();
      s.closeStatus = wr->waitForFileClosed();
      s.closeEnd = stepCount();
      if (s.closeStatus) fail("status: waitForFileClosed returned %d with no fault", s.closeStatus);
      S.push_back(s);
      FileView v = readFile(s.path);
      vector<const MRec*> must, may;
      for (auto& x : m.recs) {
        if (x.begin > s.closeEnd) continue;
        if (k && x.end < S[k - 1].closeBegin) continue; // taken by the session before
        if (x.begin > s.createEnd && x.end < s.closeBegin) must.push_back(&x);
        else may.push_back(&x);
      }
      // what was buffered and never older than a limit is there too
      {
        std::lock_guard<std::mutex> g(mx);
        for (auto& x : m.recs)
          if (x.end < s.createBegin && (k == 0 || x.begin > S[k - 1].closeEnd) && x.ts >= maxCut) must.push_back(&x);
      }
      set<const MRec*> ms(must.begin(), must.end());
      may.erase(std::remove_if(may.begin(), may.end(), [&](const MRec* x) { return ms.count(x) > 0; }), may.end());
      checkContents(v, must, may, "recorded while automatic purging is on");
    }
    // purging resumed: old data records leave memory in bounded time
    produce(1800, 3 + (int)r.below(10), true);
    uint64_t before = stepCount();
    clock = clock.load() + 1000;
    sleepNs((int64_t)((delay * 3 + 5) * 1e9));
    int st = wr->writeToFile("/sim/tmp/rest.vrs");
    if (st) fail("status: writeToFile returned %d with no fault", st);
    FileView v = readFile("/sim/tmp/rest.vrs");
    if (v.openError) fail("unreadable: %d", v.openError);
    map<StreamId, map<int, const MRec*>> last;
    vector<const MRec*> must;
    uint64_t end = S.back().closeEnd;
    for (auto& x : m.recs) {
      if (x.begin < end || x.end > before) continue;
      if (x.type == Record::Type::DATA) continue;
      auto& l = last[x.sid][(int)x.type];
      if (!l || l->ts <= x.ts) l = &x;
    }
    for (auto& a : last) for (auto& b : a.second) must.push_back(b.second);
    for (auto& g : v.recs) if (g.type == Record::Type::DATA) fail("automatic purging did not resume: a data record of time %.17g is still in memory %.1f s after it passed the limit", g.ts, delay * 3 + 5);
    checkContents(v, must, {}, "kept by automatic purging");
    wr.reset();
    nontrivial();
  }
  ctx.end();
}
