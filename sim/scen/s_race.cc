// C22: what is documented as usable from several threads is free of data races. The race detector, which is only in the
// `race` build, also watches the scenarios of other properties.
#include "faultpick.h"
#include "mkrec.h"
#include "race_ut.h"
#include "structrec.h"
#include <vrs/AsyncDiskFileChunk.h>
#include <vrs/helpers/JobQueue.h>
#include <vrs/utils/FilterCopy.h>
#include <vrs/utils/FilteredFileReader.h>
#include <vrs/utils/Validation.h>
using namespace w;
using namespace vrs;
using sim::Ctx;
using sim::fail;
using sim::nontrivial;
using sim::probe;
using sim::Rng;

// producers create records and change their streams, one thread controls the writer, one watches it
SCENARIO("C22", race_recorder, 6) {
  Rng& r = ctx.rng;
  int nStreams = 1 + (int)r.below(4), nProd = 1 + (int)r.below(3), pool = r.chance(0.4) ? 1 + (int)r.below(3) : 0;
  bool track = r.chance(0.6), callback = r.chance(0.6), split = r.chance(0.3), async = r.chance(0.15), chunkLog = r.chance(0.4);
  bool monitor = r.chance(0.6), purgeFirst = r.chance(0.4), late = r.chance(0.4), faults = r.chance(0.2), byDtor = r.chance(0.1);
  int sessions = 1 + (int)r.below(2), controlOps = 4 + (int)r.below(10), prodOps = 5 + (int)r.below(20);
  ctx.begin();
  {
    vector<unique_ptr<RaceStream>> ss;
    for (int i = 0; i < nStreams; i++) ss.push_back(std::make_unique<RaceStream>(i % 2 ? RecordableTypeId::UnitTest1 : RecordableTypeId::UnitTest2, i));
    vector<unique_ptr<RaceStream>> more;
    auto wr = std::make_unique<Writer>();
    for (auto& s : ss) wr->addRecordable(s.get());
    if (pool) wr->setCompressionThreadPoolSize((size_t)pool);
    if (track) wr->trackBackgroundThreadQueueByteSize();
    if (callback) wr->setInitCreatedThreadCallback(nameThread);
    wr->setTag("race", "1");
    std::atomic<bool> done{false};
    std::atomic<double> now{100};
    auto newest = [&now] { return now.load(std::memory_order_relaxed); };
    if (purgeFirst) wr->autoPurgeRecords([&now] { return now.load(std::memory_order_relaxed) - 3; }, 0.5);
    vector<std::thread> th;
    for (int p = 0; p < nProd; p++)
      th.emplace_back([&, p] {
        for (int k = 0; k < prodOps; k++) {
          uint32_t i = 500 + (uint32_t)p * 100 + (uint32_t)k;
          if (!ctx.op(i)) continue;
          Rng g = ctx.opRng(i);
          RaceStream* s = ss[g.below(ss.size())].get();
          double t = now.load(std::memory_order_relaxed) + 0.25;
          now.store(t, std::memory_order_relaxed);
          switch (g.below(16)) {
            case 0: s->setCompression(pickPreset(g)); break;
            case 1: s->setRecordableIsActive(g.chance(0.6)); break;
            case 2: s->createConfigurationRecord(); break;
            case 3: s->createStateRecord(); break;
            case 4: sim::sleepNs((int64_t)g.below(1500000000)); break;
            case 5: (void)s->isRecordableActive(); break;
            default: s->data(t - (double)g.below(3), pickSize(g, 3000), g.chance(0.6));
          }
        }
      });
    if (monitor)
      th.emplace_back([&] {
        for (int k = 0; k < 30 && !done; k++) {
          (void)wr->getBackgroundThreadQueueByteSize();
          (void)wr->getRecordables();
          (void)wr->isWriting();
          sim::sleepNs(100000000);
        }
      });
    auto log = std::make_shared<vector<ChunkLog::Ev>>();
    for (int s = 0; s < sessions; s++) {
      string path = "/sim/tmp/race" + std::to_string(s) + ".vrs";
      if (faults) pickWriteFaults(ctx, true, false);
      int st;
      unique_ptr<NewChunkHandler> handler;
      if (chunkLog) handler = std::make_unique<ChunkLog>(log);
      if (async) wr->setWriteFileHandler(std::make_unique<AsyncDiskFile>());
      sim::armFaults(faults);
      if (split) st = wr->createFileAsync("diskfile:" + path + "?split_head=1");
      else if (chunkLog) st = wr->createChunkedFile(path, 1, std::move(handler));
      else st = wr->createFileAsync(path);
      if (st) { sim::armFaults(false); continue; }
      for (int k = 0; k < controlOps; k++) {
        uint32_t i = 10 + (uint32_t)s * 40 + (uint32_t)k;
        if (!ctx.op(i)) continue;
        Rng g = ctx.opRng(i);
        switch (g.below(14)) {
          case 0: case 1: wr->writeRecordsAsync(newest() - (double)g.below(3)); break;
          case 2: wr->autoWriteRecordsAsync(newest, 0.1 * (double)(1 + g.below(20))); break;
          case 3: wr->autoPurgeRecords([&now] { return now.load(std::memory_order_relaxed) - 5; }, 0.1 * (double)g.below(20)); break;
          case 4: wr->purgeOldRecords(newest() - 10, g.chance(0.5)); break;
          case 5: wr->setMaxChunkSizeMB(g.below(2)); break;
          case 6: (void)wr->isWriting(); break;
          case 7: (void)wr->getBackgroundThreadQueueByteSize(); break;
          case 8: (void)wr->getRecordables(); break;
          case 9: wr->setTag("late", "no"); break;
          case 10:
            if (late && more.size() < 4) {
              more.push_back(std::make_unique<RaceStream>(RecordableTypeId::UnitTestRecordableClass, 10 + (int)more.size()));
              wr->addRecordable(more.back().get());
              probe("stream added while recording");
            }
            break;
          case 11: for (auto& m : more) m->data(newest(), 100, true); break;
          default: sim::sleepNs((int64_t)g.below(3000000000ll));
        }
      }
      if (byDtor && s == sessions - 1) { done = true; for (auto& t : th) t.join(); th.clear(); wr.reset(); break; }
      if (ctx.opRng(9).chance(0.5)) {
        wr->closeFileAsync();
        if (ctx.opRng(9).chance(0.3)) wr->autoPurgeRecords([&now] { return now.load(std::memory_order_relaxed) - 5; }, 0.3);
        for (int k = 0; k < 5 && wr->isWriting(); k++) sim::sleepNs(200000000);
      }
      wr->waitForFileClosed();
      sim::armFaults(false);
      if (!async && ctx.opRng(9).chance(0.3)) wr->writeToFile("/sim/tmp/sync.vrs");
      nontrivial();
    }
    done = true;
    for (auto& t : th) t.join();
    wr.reset();
  }
  ctx.end();
}

namespace {
void recordOne(Rng& g, const string& path) {
  vector<unique_ptr<RaceStream>> ss;
  for (int i = 0, n = 1 + (int)g.below(2); i < n; i++) ss.push_back(std::make_unique<RaceStream>(i % 2 ? RecordableTypeId::UnitTest1 : RecordableTypeId::UnitTest2, i));
  Writer wr;
  for (auto& s : ss) { s->setCompression(pickPreset(g)); wr.addRecordable(s.get()); }
  if (g.chance(0.5)) wr.setCompressionThreadPoolSize(1 + g.below(2));
  bool live = g.chance(0.5);
  if (live && wr.createFileAsync(path)) return;
  for (auto& s : ss) { s->createConfigurationRecord(); s->createStateRecord(); }
  for (int k = 0, n = (int)g.below(12); k < n; k++) ss[g.below(ss.size())]->data(10 + k, pickSize(g, 3000), g.chance(0.5));
  if (live) wr.waitForFileClosed();
  else wr.writeToFile(path);
}
} // namespace

// writers, readers, copies and checks which have nothing in common, one thread each
SCENARIO("C22", race_independent, 4) {
  Rng& r = ctx.rng;
  int nt = 2 + (int)r.below(3);
  ctx.begin();
  {
    sim::fs::mkdirs("/sim/out");
    vector<std::thread> th;
    for (int t = 0; t < nt; t++)
      th.emplace_back([&, t] {
        string id = std::to_string(t);
        for (uint32_t k = 0; k < 3; k++) {
          uint32_t i = 10 + (uint32_t)t * 10 + k;
          if (!ctx.op(i)) continue;
          Rng g = ctx.opRng(i);
          string path = "/sim/tmp/own" + id + ".vrs", out = "/sim/out/copy" + id + ".vrs";
          switch (g.below(4)) {
            case 0: {
              StructOpts o;
              o.streams = 1;
              o.maxRecords = 6;
              o.path = "/sim/tmp/struct" + id + ".vrs";
              Ctx own = ctx; // its choices must not depend on the other threads
              own.rng = g;
              StructFile sf(own, o);
              sf.record();
              StructReader rd(sf, g);
              rd.open();
              rd.readAll();
              break;
            }
            case 1: {
              recordOne(g, path);
              FileView v = readFile(path);
              break;
            }
            case 2: {
              recordOne(g, path);
              utils::FilteredFileReader f(path);
              if (f.openFile()) break;
              utils::CopyOptions co;
              co.showProgress = false;
              co.compressionPoolSize = (unsigned)g.below(3);
              utils::filterCopy(f, out, co);
              break;
            }
            default: {
              recordOne(g, path);
              utils::FilteredFileReader f(path);
              if (f.openFile()) break;
              utils::CopyOptions co;
              co.showProgress = false;
              utils::checkRecords(f, co, utils::CheckType::Checksum);
            }
          }
        }
      });
    for (auto& t : th) t.join();
    nontrivial();
  }
  ctx.end();
}
