#include "rec.h"
#include "faultpick.h"
using namespace w;
using sim::fail;
using namespace sim;

namespace {
// data that notes when it reached the writer
struct Written { std::atomic<int> n{0}; };
class Probe : public vrs::DirectWriteRecordData {
 public:
  Probe(std::shared_ptr<Written> s, size_t n) : st(std::move(s)), data(n, 'p') {}
  size_t getDataSize() const override { return data.size(); }
  int write(vrs::WriteFileHandler& f) const override {
    st->n++;
    return data.empty() ? 0 : f.write(data.data(), data.size());
  }
  std::shared_ptr<Written> st;
  string data;
};
class ProbeStream : public TestStream {
 public:
  using TestStream::TestStream;
  std::shared_ptr<Written> probe(double ts, size_t head, size_t tail) {
    auto st = std::make_shared<Written>();
    string h(head, 'h');
    createUncompressedRecord(ts, Record::Type::DATA, 1, vrs::DataSource(vrs::DataSourceChunk(h.data(), h.size())), std::make_unique<Probe>(st, tail));
    return st;
  }
  void plain(double ts, size_t n, Rng& r) {
    string d = makePayload(r.next(), n, (int)r.below(3));
    createRecord(ts, Record::Type::DATA, 1, vrs::DataSource(vrs::DataSourceChunk(d.data(), d.size())));
  }
};
void bounded(int64_t t0, int64_t maxNs, const char* what) {
  int64_t d = nowNs() - t0;
  if (d > maxNs) fail("call took too long: %s took %.3f simulated seconds", what, d / 1e9);
}
} // namespace

// with automatic writing, records reach the writer without any further call
SCENARIO("C08", progress_auto, 2.5) {
  Rng& r = ctx.rng;
  int pool = r.chance(0.5) ? 1 + (int)r.below(4) : 0;
  int nProd = 1 + (int)r.below(3), nRec = 2 + (int)r.below(20);
  double delay = r.chance(0.3) ? 0.001 + 0.01 * r.unit() : r.chance(0.5) ? 0.1 + r.unit() : 1 + 4 * r.unit();
  double back = (double)r.below(4);
  bool jumps = r.chance(0.3);
  if (r.chance(0.4)) ctx.sched.pSpurious = 0.05 + 0.3 * r.unit();
  if (r.chance(0.4)) fs::setWriteLatency(0, (int64_t)r.below(20000000));
  if (r.chance(0.2)) fs::setLatency(0, (int64_t)r.below(20000000));
  ctx.begin();
  {
    Model m;
    vector<unique_ptr<ProbeStream>> ss;
    for (int i = 0, n = 1 + (int)r.below(3); i < n; i++) {
      ss.push_back(std::make_unique<ProbeStream>(m, kTypes[i], "p", r.below(100)));
      ss.back()->setCompression(pickPreset(r));
    }
    Writer wr;
    for (auto& s : ss) wr.addRecordable(s.get());
    if (pool) wr.setCompressionThreadPoolSize((size_t)pool);
    bool track = r.chance(0.6);
    if (track) wr.trackBackgroundThreadQueueByteSize();
    std::atomic<double> clock{1};
    std::mutex mx;
    vector<std::pair<double, std::shared_ptr<Written>>> all;
    int st = wr.createFileAsync("/sim/tmp/p.vrs");
    if (st) fail("status: createFileAsync returned %d with no fault", st);
    auto startAuto = [&] {
      int e = wr.autoWriteRecordsAsync([&] { return clock.load() - back; }, delay);
      if (e) fail("status: autoWriteRecordsAsync returned %d with no fault", e);
    };
    bool lateAuto = r.chance(0.3);
    if (!lateAuto) startAuto();
    vector<std::thread> th;
    for (int p = 0; p < nProd; p++)
      th.emplace_back([&, p] {
        for (int k = 0; k < nRec; k++) {
          if (!ctx.op(100 + p * 100 + k)) continue;
          Rng q = ctx.opRng(100 + p * 100 + k);
          double ts = clock.load() + 0.05;
          clock = ts;
          ts -= (double)q.below(3);
          auto& s = ss[q.below(ss.size())];
          int what = (int)q.below(6);
          if (what == 0) sleepNs((int64_t)q.below((uint64_t)(delay * 2e9)));
          else if (what == 1) s->plain(ts, pickSize(q, 3000), q);
          else {
            auto w = s->probe(ts, q.below(400), q.below(1500));
            std::lock_guard<std::mutex> g(mx);
            all.emplace_back(ts, w);
          }
          if (jumps && q.chance(0.2)) { clockJump((int64_t)q.range(-100000000000ll, 100000000000ll)); recordFault(fClockJump); }
        }
      });
    if (lateAuto) { if (r.chance(0.5)) sleepNs((int64_t)r.below(1000000000)); startAuto(); }
    if (r.chance(0.3)) { sleepNs((int64_t)r.below(3000000000)); startAuto(); }
    // cut-offs: first everything up to the present, then past it
    for (auto& t : th) t.join();
    double maxTs = clock.load();
    clock = maxTs + back + 1;
    int64_t lim = (int64_t)((3 * delay + 30) * 1e9), t0 = nowNs();
    for (;;) {
      size_t left = 0;
      for (auto& a : all) if (a.second->n == 0) left++;
      if (!left) break;
      if (nowNs() - t0 > lim)
        fail("automatic writing stalled: %zu of %zu records not written %.1f simulated seconds after the cut-off passed (delay %.3f s, pool %d)", left, all.size(), (nowNs() - t0) / 1e9, delay, pool);
      sleepNs((int64_t)(delay * 0.5e9) + 50000000);
    }
    for (auto& a : all) if (a.second->n != 1) fail("record written more than once: %d times", a.second->n.load());
    if (track) {
      sleepNs(lim);
      uint64_t q = wr.getBackgroundThreadQueueByteSize();
      if (q) fail("queue size accounting: %lu bytes still counted when everything is written", (unsigned long)q);
    }
    int64_t c0 = nowNs();
    st = wr.waitForFileClosed();
    if (st) fail("status: waitForFileClosed returned %d with no fault", st);
    bounded(c0, (int64_t)120e9, "waitForFileClosed");
    if (all.size() > 2) nontrivial();
  }
  ctx.end();
}
// batches sent explicitly reach the file without any further call
SCENARIO("C08", progress_batches, 1.2) {
  Rng& r = ctx.rng;
  int pool = r.chance(0.5) ? 1 + (int)r.below(4) : 0;
  int nCtl = 1 + (int)r.below(2), nOps = 1 + (int)r.below(12);
  if (r.chance(0.3)) ctx.sched.pSpurious = 0.05 + 0.3 * r.unit();
  if (r.chance(0.5)) fs::setWriteLatency(0, (int64_t)r.below(20000000));
  ctx.begin();
  {
    Model m;
    vector<unique_ptr<ProbeStream>> ss;
    for (int i = 0, n = 1 + (int)r.below(3); i < n; i++) {
      ss.push_back(std::make_unique<ProbeStream>(m, kTypes[i], "p", r.below(100)));
      ss.back()->setCompression(pickPreset(r));
    }
    Writer wr;
    for (auto& s : ss) wr.addRecordable(s.get());
    if (pool) wr.setCompressionThreadPoolSize((size_t)pool);
    int st = wr.createFileAsync("/sim/tmp/p.vrs");
    if (st) fail("status: createFileAsync returned %d with no fault", st);
    std::mutex mx;
    vector<std::shared_ptr<Written>> all;
    vector<std::thread> th;
    for (int p = 0; p < nCtl; p++)
      th.emplace_back([&, p] {
        for (int k = 0; k < nOps; k++) {
          if (!ctx.op(100 + p * 100 + k)) continue;
          Rng q = ctx.opRng(100 + p * 100 + k);
          auto& s = ss[q.below(ss.size())];
          for (int i = 0, n = 1 + (int)q.below(3); i < n; i++) {
            auto w = s->probe(k, q.below(400), q.below(1500));
            std::lock_guard<std::mutex> g(mx);
            all.push_back(w);
          }
          if (q.chance(0.4)) s->plain(k, pickSize(q, 3000), q);
          wr.writeRecordsAsync(Record::kMaxTimestamp);
          if (q.chance(0.4)) sleepNs((int64_t)q.below(q.chance(0.5) ? 3000000 : 2000000000));
        }
      });
    for (auto& t : th) t.join();
    int64_t t0 = nowNs();
    for (;;) {
      size_t left = 0;
      for (auto& a : all) if (a->n == 0) left++;
      if (!left) break;
      if (nowNs() - t0 > (int64_t)60e9) fail("batch writing stalled: %zu of %zu records handed over are not written 60 simulated seconds later (pool %d)", left, all.size(), pool);
      sleepNs(200000000);
    }
    for (auto& a : all) if (a->n != 1) fail("record written more than once: %d times", a->n.load());
    if ((st = wr.waitForFileClosed())) fail("status: waitForFileClosed returned %d with no fault", st);
    if (all.size() > 2) nontrivial();
  }
  ctx.end();
}
// the tracked size: never more than what was handed over, zero when idle, whatever fails
static void queueRun(Ctx& ctx, bool faults) {
  Rng& r = ctx.rng;
  int pool = r.chance(0.5) ? 1 + (int)r.below(4) : 0;
  if (r.chance(0.3)) ctx.sched.pSpurious = 0.05 + 0.3 * r.unit();
  int rounds = 2 + (int)r.below(5), sessions = 1 + (int)r.below(2);
  bool autoW = r.chance(0.35), chunks = r.chance(0.15);
  double delay = 0.05 + r.unit();
  if (faults) pickWriteFaults(ctx, false, chunks);
  if (r.chance(0.4)) fs::setWriteLatency(0, (int64_t)r.below(5000000));
  ctx.begin();
  {
    Model m;
    m.recs.reserve(5000);
    std::atomic<double> clock{1};
    m.clock = [&] { return clock.load(); };
    vector<unique_ptr<TestStream>> ss;
    for (int i = 0, n = 1 + (int)r.below(3); i < n; i++) {
      ss.push_back(std::make_unique<TestStream>(m, kTypes[i], "p", r.below(100)));
      ss.back()->setCompression(pickPreset(r));
    }
    auto wr = std::make_unique<Writer>();
    for (auto& s : ss) wr->addRecordable(s.get());
    if (pool) wr->setCompressionThreadPoolSize((size_t)pool);
    wr->trackBackgroundThreadQueueByteSize();
    std::atomic<bool> stop{false};
    // everything created so far bounds what can be queued
    auto check = [&](const char* where) {
      uint64_t q = wr->getBackgroundThreadQueueByteSize();
      uint64_t total = 0;
      for (size_t i = 0; i < m.recs.size(); i++) total += m.recs[i].data.size();
      if (q > total) fail("queue size accounting: %s: %lu bytes counted, only %lu bytes were ever created", where, (unsigned long)q, (unsigned long)total);
      if (q) probe("queue size not zero when sampled");
    };
    if (faults) { initFaults(ctx.seed); armFaults(true); }
    for (int k = 0; k < sessions; k++) {
      if (chunks) wr->setMaxChunkSizeMB(1);
      int st = wr->createFileAsync("/sim/tmp/q" + std::to_string(k) + ".vrs");
      if (st) {
        if (!faults) fail("status: createFileAsync returned %d with no fault", st);
        continue;
      }
      if (autoW) wr->autoWriteRecordsAsync([&] { return clock.load(); }, delay);
      for (int j = 0; j < rounds; j++) {
        if (!ctx.op(100 + k * 50 + j)) continue;
        Rng q = ctx.opRng(100 + k * 50 + j);
        // enough records to keep every compression job of the pool busy
        bool burst = pool && pool <= 2 && q.chance(0.15);
        if (burst) for (auto& s : ss) if (q.chance(0.7)) s->setCompression(vrs::CompressionPreset::Lz4Fast);
        for (int i = 0, n = burst ? 25 + (int)q.below(70) : (int)q.below(16); i < n; i++) {
          clock = clock.load() + 0.01;
          string d = burst ? makePayload(m.nextId++, 300 + q.below(400), kCompressible) : makePayload(m.nextId++, chunks && q.chance(0.3) ? 400000 : pickSize(q, 4000), (int)q.below(3));
          auto& s = ss[q.below(ss.size())];
          if (q.chance(0.3)) s->makeDirect(clock.load(), Record::Type::DATA, 1, d.substr(0, d.size() / 2), d.substr(d.size() / 2));
          else s->make(clock.load(), Record::Type::DATA, 1, d);
        }
        if (!autoW || q.chance(0.3)) {
          int64_t t0 = nowNs();
          wr->writeRecordsAsync(q.chance(0.7) ? Record::kMaxTimestamp : clock.load() - 0.05);
          bounded(t0, (int64_t)30e9, "writeRecordsAsync");
        }
        for (int i = 0, n = (int)q.below(4); i < n; i++) { check("while recording"); if (q.chance(0.5)) sleepNs((int64_t)q.below(3000000)); }
        if (q.chance(0.4)) {
          // nothing more is handed over: the count goes back to zero
          clock = clock.load() + 1;
          sleepNs((int64_t)((delay * 3 + 60) * 1e9));
          uint64_t left = wr->getBackgroundThreadQueueByteSize();
          if (left) fail("queue size accounting: %lu bytes still counted when idle%s", (unsigned long)left, faultsInjected() ? " (after an I/O error)" : "");
          probe("idle queue size examined");
        }
      }
      int64_t t0 = nowNs();
      st = wr->waitForFileClosed();
      bounded(t0, (int64_t)300e9, "waitForFileClosed");
      if (st && !faults) fail("status: waitForFileClosed returned %d with no fault", st);
      uint64_t q = wr->getBackgroundThreadQueueByteSize();
      if (q) fail("queue size accounting: %lu bytes still counted after the file was closed", (unsigned long)q);
    }
    armFaults(false);
    wr.reset();
    if (faultsInjected() || !faults) nontrivial();
  }
  ctx.end();
}
SCENARIO("C08", queue_size, 1.2) { queueRun(ctx, false); }
SCENARIO("C08", queue_size_faults, 1.5) { queueRun(ctx, true); }
// any recording, under hostile scheduling: no call hangs
static void hostile(Ctx& ctx, bool faults) {
  RecCfg c = pickCfg(ctx);
  Rng& r = ctx.rng;
  c.track = r.chance(0.5);
  c.closeByDestructor = r.chance(0.15);
  if (r.chance(0.6)) ctx.sched.pSpurious = 0.05 + 0.4 * r.unit();
  if (r.chance(0.4)) { ctx.sched.policy = kStarve; ctx.sched.starveTid = 1 + (int)r.below(6); }
  if (r.chance(0.4)) fs::setWriteLatency(0, (int64_t)r.below(30000000));
  if (faults) pickWriteFaults(ctx, c.async, c.pHuge > 0);
  ctx.begin();
  RecRun rr(ctx, c);
  rr.faulty = faults;
  std::atomic<bool> stop{false};
  std::thread jumper([&] {
    for (int i = 0; i < 20 && !stop; i++) {
      Rng q = ctx.opRng(3000 + i);
      sleepNs((int64_t)q.below(500000000));
      clockJump((int64_t)q.range(-50000000000ll, 50000000000ll));
      recordFault(fClockJump);
    }
  });
  if (faults) { initFaults(ctx.seed); armFaults(true); }
  int64_t t0 = nowNs();
  rr.run();
  bounded(t0, (int64_t)3600e9, "the whole recording");
  armFaults(false);
  stop = true;
  jumper.join();
  if (rr.model.recs.size() > 3) nontrivial();
  rr.writer.reset();
  ctx.end();
}
SCENARIO("C08", hostile_schedules, 1) { hostile(ctx, false); }
SCENARIO("C08", hostile_schedules_faults, 1) { hostile(ctx, true); }
