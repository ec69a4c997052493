#include "rec.h"
#include <vrs/os/Time.h>

namespace w {
using sim::fail;
using sim::logf;
using sim::probe;

string cfgStr(const RecCfg& c) {
  char b[400];
  snprintf(b, sizeof b, "mode %d streams %d producers %d x%d ctl %d sessions %d pool %d split %d chunkMB %d handler %d prealloc %d sort %d track %d direct %d late %d dtor %d conc %d async %d [%s] big %zu ts %d",
           c.mode, c.streams, c.producers, c.opsPerProducer, c.controlOps, c.sessions, c.pool, c.split, c.chunkMB, c.chunkHandler, c.prealloc, c.sortRecords, c.track, c.direct, c.late, c.closeByDestructor, c.concurrentClose, c.async, c.engineOpts.c_str(), c.big, c.tsMode);
  return b;
}
RecCfg pickCfg(Ctx& ctx) {
  Rng& r = ctx.rng;
  RecCfg c;
  int x = (int)r.below(10);
  c.mode = x < 2 ? RecCfg::kSync : x < 5 ? RecCfg::kManual : x < 8 ? RecCfg::kAuto : RecCfg::kMixed;
  c.streams = 1 + (int)r.below(4);
  c.producers = (int)r.below(4);
  c.opsPerProducer = 2 + (int)r.below(ctx.thorough ? 40 : 22);
  c.controlOps = (int)r.below(8);
  c.sessions = r.chance(0.3) ? 2 + (int)r.below(2) : 1;
  c.pool = r.chance(0.5) ? 1 + (int)r.below(4) : 0;
  c.split = r.chance(0.3);
  c.chunkMB = r.chance(0.15) ? 1 : 0;
  c.chunkHandler = c.split && r.chance(0.6);
  c.prealloc = r.chance(0.25);
  c.sortRecords = !r.chance(0.2);
  c.track = r.chance(0.5);
  c.direct = r.chance(0.2);
  c.late = r.chance(0.25);
  c.closeByDestructor = r.chance(0.1);
  c.concurrentClose = r.chance(0.4);
  c.big = r.chance(0.2) ? 30000 : 2500;
  c.pHuge = c.chunkMB ? 0.3 : 0;
  c.tsMode = (int)r.below(4);
  return c;
}
string uri(const RecCfg& c, const string& path) {
  string opts;
  auto add = [&](const string& s) { opts += (opts.empty() ? "?" : "&") + s; };
  if (!c.sortRecords) add("sort_records=false");
  if (c.async && !c.engineOpts.empty()) add(c.engineOpts);
  if (opts.empty()) return path;
  return "diskfile:" + path + opts;
}

constexpr size_t kSlot = (sizeof(TestStream) + 63) / 64 * 64;
constexpr size_t kSlots = 24;
constexpr size_t kArenas = 10;
alignas(64) static char gArena[kArenas][kSlots][kSlot];
static bool gArenaUsed[kArenas];

StreamArena::StreamArena(Rng& r, Model& m, int n) : model(m) {
  size_t a = 0;
  while (a < kArenas && gArenaUsed[a]) a++;
  if (a == kArenas) sim::harnessError("too many arenas");
  gArenaUsed[a] = true;
  arena = a;
  for (size_t i = 0; i < kSlots; i++) slots.push_back((int)i);
  for (size_t i = kSlots - 1; i > 0; i--) std::swap(slots[i], slots[r.below(i + 1)]);
  for (size_t i = 0; i < kSlots; i++) {
    types.push_back(kTypes[r.below(r.chance(0.5) ? 2 : 6)]);
    flavors.push_back("team/test/flavor" + std::to_string(r.below(3)));
    cfgSizes.push_back(r.below(200));
    presets.push_back(pickPreset(r));
  }
  for (int i = 0; i < n; i++) add();
}
TestStream* StreamArena::add() {
  size_t i = used++;
  TestStream* s = new (gArena[arena][slots[i]]) TestStream(model, types[i], flavors[i], cfgSizes[i]);
  if (presets[i] != vrs::CompressionPreset::Undefined) s->setCompression(presets[i]);
  s->setTag("serial", "user" + std::to_string(i));
  if (i % 2) s->setTag("empty", "");
  all.push_back(s);
  sim::handOver(&all);
  if (onAdd) onAdd(s);
  return s;
}
StreamArena::~StreamArena() {
  for (auto s : all) s->~TestStream();
  gArenaUsed[arena] = false;
}
void ChunkLog::newChunk(const string& path, size_t index, bool isLast) {
  log->push_back({path, index, isLast, sim::fs::exists(path) ? sim::fs::content(path) : "<missing>", sim::stepCount()});
}

RecRun::RecRun(Ctx& c, RecCfg f) : ctx(c), cfg(std::move(f)) {
  model.recs.reserve(20000); // the model is indexed while other threads append
  logf("recording: %s", cfgStr(cfg).c_str());
  arena = std::make_unique<StreamArena>(ctx.rng, model, cfg.streams);
  writer = std::make_unique<Writer>();
  model.clock = [this] { return clock.load(); };
}
RecRun::~RecRun() {
  writer.reset();
  arena.reset();
}
double RecRun::nextTs(Rng& r) {
  double now;
  switch (cfg.tsMode) {
    case 0: now = clock.load() + 0.01; clock = now; return now;
    case 1: if (r.chance(0.4)) clock = clock.load() + 1; return clock.load();
    case 2: now = clock.load() + 0.5; clock = now; return now - (double)r.below(8);
    default: if (r.chance(0.02)) clock = clock.load() + 1; return clock.load();
  }
}
void RecRun::producer(int p) {
  for (int k = 0; k < cfg.opsPerProducer; k++) {
    uint32_t i = 200 + (uint32_t)p * 200 + (uint32_t)k;
    if (!ctx.op(i)) continue;
    Rng r = ctx.opRng(i);
    TestStream* s;
    {
      size_t n = arena->all.size();
      sim::takeOver(&arena->all);
      s = arena->all[r.below(n)];
    }
    int what = (int)r.below(20);
    if (what == 0) {
      sim::sleepNs((int64_t)r.below(2000000000));
    } else if (what == 1) {
      s->setCompression(pickPreset(r));
    } else if (what == 2) {
      s->createStateRecord();
    } else if (what == 3) {
      s->createConfigurationRecord();
    } else {
      size_t size = r.chance(cfg.pHuge) ? 150000 + r.below(400000) : pickSize(r, cfg.big);
      uint64_t id = model.nextId++;
      auto type = r.chance(0.9) ? Record::Type::DATA : r.chance(0.5) ? Record::Type::STATE : Record::Type::CONFIGURATION;
      string data = makePayload(id, size, (int)r.below(3));
      uint32_t ver = (uint32_t)r.below(4) * 1000000007u;
      if (cfg.direct && r.chance(0.4)) {
        size_t cut = data.empty() ? 0 : r.below(data.size() + 1);
        s->makeDirect(nextTs(r), type, ver, data.substr(0, cut), data.substr(cut));
      } else {
        s->make(nextTs(r), type, ver, data);
      }
    }
  }
}
void RecRun::checkQueue(const char* where) {
  if (!cfg.track) return;
  uint64_t q = writer->getBackgroundThreadQueueByteSize(), total = 0;
  for (auto& m : model.recs) total += m.data.size() + 512;
  if (q > total + 100000) fail("queue size accounting: %s: %lu bytes queued, only %lu bytes were ever created", where, (unsigned long)q, (unsigned long)total);
  if (q > maxQueueSeen) maxQueueSeen = q;
}
void RecRun::control(int session, int n, uint32_t base) {
  bool autoOn = false;
  for (int k = 0; k < n; k++) {
    uint32_t i = base + (uint32_t)k;
    if (!ctx.op(i)) continue;
    Rng r = ctx.opRng(i);
    Session& s = sessions[session];
    switch (cfg.late ? r.below(12) : r.below(10)) {
      case 0: case 1: case 2:
        if (cfg.mode != RecCfg::kAuto || r.chance(0.2)) {
          int st = writer->writeRecordsAsync(r.chance(0.3) ? Record::kMaxTimestamp : clock.load() - (double)r.below(6));
          s.writeStatuses.push_back(st);
          if (st && !faulty) fail("write status: writeRecordsAsync returned %d with no fault", st);
        }
        break;
      case 3: sim::sleepNs((int64_t)r.below(3000000000)); break;
      case 4: checkQueue("while recording"); break;
      case 5:
        if ((cfg.mode == RecCfg::kAuto || cfg.mode == RecCfg::kMixed)) {
          double back = (double)r.below(4);
          int st = writer->autoWriteRecordsAsync([this, back] { return clock.load() - back; }, 0.001 * (1 + r.below(2000)));
          if (st && !faulty) fail("write status: autoWriteRecordsAsync returned %d with no fault", st);
          autoOn = true;
        }
        break;
      case 6: case 10: case 11:
        if (cfg.late && arena->all.size() < 20) {
          TestStream* t = arena->add();
          // a stream may be switched on only after it is added
          bool asleep = r.chance(0.4);
          if (asleep) { t->setRecordableIsActive(false); model.napped.insert(t->getStreamId()); }
          writer->addRecordable(t);
          if (afterAdd) afterAdd(t);
          if (asleep) {
            if (r.chance(0.3)) sim::sleepNs((int64_t)r.below(1000000000));
            t->setRecordableIsActive(true);
          }
          if (r.chance(0.5)) t->make(nextTs(r), Record::Type::DATA, 3, makePayload(model.nextId++, pickSize(r, cfg.big), (int)r.below(3)));
          probe("stream added while recording");
        }
        break;
      case 7: arena->all[r.below(arena->all.size())]->createStateRecord(); break;
      default: {
        uint64_t id = model.nextId++;
        arena->all[r.below(arena->all.size())]->make(nextTs(r), Record::Type::DATA, 3, makePayload(id, pickSize(r, cfg.big), (int)r.below(3)));
      }
    }
  }
  (void)autoOn;
}
void RecRun::run() {
  if (cfg.async) writer->setWriteFileHandler(std::make_unique<vrs::AsyncDiskFile>());
  for (auto s : arena->all) writer->addRecordable(s);
  if (cfg.pool) writer->setCompressionThreadPoolSize((size_t)cfg.pool);
  if (cfg.track) writer->trackBackgroundThreadQueueByteSize();
  // some records exist before the file
  if (ctx.rng.chance(0.6))
    for (int k = 0, n = (int)ctx.rng.below(6); k < n; k++) {
      Rng r = ctx.opRng(5000 + k);
      arena->all[r.below(arena->all.size())]->make(nextTs(r), Record::Type::DATA, 9, makePayload(model.nextId++, pickSize(r, cfg.big), 2));
    }
  vector<std::thread> prods;
  bool syncConcurrent = cfg.mode != RecCfg::kSync || cfg.concurrentClose;
  if (!syncConcurrent) for (int p = 0; p < cfg.producers; p++) producer(p);
  else for (int p = 0; p < cfg.producers; p++) prods.emplace_back([this, p] { producer(p); });
  for (int k = 0; k < cfg.sessions; k++) {
    sessions.emplace_back();
    Session& s = sessions.back();
    s.path = cfg.sessions == 1 ? cfg.path : cfg.path.substr(0, cfg.path.size() - 4) + "_s" + std::to_string(k) + ".vrs";
    writer->setTag("session", std::to_string(k));
    writer->setTag("note", string(1 + k * 300, 'n'));
    for (auto& t : cfg.tags) writer->setTag(t.first, t.second);
    s.tags = writer->getTags();
    bool last = k == cfg.sessions - 1;
    string u = uri(cfg, s.path);
    if (cfg.mode == RecCfg::kSync) {
      if (last && !cfg.concurrentClose) { for (auto& t : prods) t.join(); prods.clear(); }
      s.createBegin = s.createEnd = s.closeBegin = sim::stepCount();
      s.closeStatus = s.createStatus = writer->writeToFile(u);
      s.closeEnd = sim::stepCount();
      s.opened = s.closeStatus == 0;
      if (afterClose) afterClose(k);
      if (s.closeStatus && !faulty) fail("write status: writeToFile returned %d with no fault", s.closeStatus);
      continue;
    }
    if (cfg.prealloc) {
      auto idx = std::make_unique<std::deque<vrs::IndexRecord::DiskRecordInfo>>();
      int n = (int)ctx.rng.below((uint64_t)cfg.preallocMax);
      for (int i = 0; i < n; i++) idx->push_back({(double)i, (uint32_t)ctx.rng.below(5000), arena->all[0]->getStreamId(), Record::Type::DATA});
      writer->preallocateIndex(std::move(idx));
    }
    s.createBegin = sim::stepCount();
    if (cfg.split) {
      unique_ptr<vrs::NewChunkHandler> h;
      chunkLogs.push_back(std::make_shared<vector<ChunkLog::Ev>>());
      if (cfg.chunkHandler) h = std::make_unique<ChunkLog>(chunkLogs.back());
      s.createStatus = writer->createChunkedFile(u, (size_t)cfg.chunkMB, std::move(h));
    } else {
      chunkLogs.push_back(nullptr);
      if (cfg.chunkMB) writer->setMaxChunkSizeMB((size_t)cfg.chunkMB);
      s.createStatus = writer->createFileAsync(u);
    }
    s.createEnd = sim::stepCount();
    if (s.createStatus) {
      if (!faulty) fail("write status: file creation returned %d with no fault", s.createStatus);
      s.closeEnd = sim::stepCount();
      continue;
    }
    s.opened = true;
    if (afterCreate) afterCreate(k);
    if (cfg.mode == RecCfg::kAuto) {
      double back = (double)ctx.rng.below(3);
      int st = writer->autoWriteRecordsAsync([this, back] { return clock.load() - back; }, 0.001 * (1 + ctx.rng.below(1500)));
      if (st && !faulty) fail("write status: autoWriteRecordsAsync returned %d with no fault", st);
    }
    control(k, cfg.controlOps, 10 + (uint32_t)k * 50);
    if (last && !cfg.concurrentClose) { for (auto& t : prods) t.join(); prods.clear(); }
    if (beforeClose) beforeClose(k);
    Rng& cr = ctx.rng;
    bool early = cr.chance(0.4);
    s.closeBegin = sim::stepCount();
    if (early) {
      int st = writer->closeFileAsync();
      s.writeStatuses.push_back(st);
      if (st && !faulty) fail("write status: closeFileAsync returned %d with no fault", st);
      if (cr.chance(0.5)) sim::sleepNs((int64_t)cr.below(1000000000));
    }
    if (cfg.closeByDestructor && last) {
      for (auto& t : prods) t.join();
      prods.clear();
      writer.reset();
      s.closeStatus = 0;
      s.closeEnd = sim::stepCount();
      break;
    }
    s.closeStatus = writer->waitForFileClosed();
    s.closeEnd = sim::stepCount();
    if (afterClose) afterClose(k);
    if (s.closeStatus && !faulty) fail("write status: waitForFileClosed returned %d with no fault", s.closeStatus);
    if (cfg.track) {
      uint64_t q = writer->getBackgroundThreadQueueByteSize();
      if (q) fail("queue size accounting: %lu bytes still counted after the file was closed", (unsigned long)q);
    }
  }
  for (auto& t : prods) t.join();
}
void RecRun::flushRest() {
  if (!writer) {
    writer = std::make_unique<Writer>();
    for (auto s : arena->all) writer->addRecordable(s);
  } else if (cfg.async) {
    writer->setWriteFileHandler(std::make_unique<vrs::DiskFile>());
  }
  writer->setCompressionThreadPoolSize(0);
  writer->setMaxChunkSizeMB(0);
  sessions.emplace_back();
  Session& s = sessions.back();
  s.path = "/sim/tmp/rest.vrs";
  s.createBegin = s.createEnd = s.closeBegin = sim::stepCount();
  s.createStatus = s.closeStatus = writer->writeToFile(s.path);
  s.closeEnd = sim::stepCount();
  s.opened = true;
  chunkLogs.push_back(nullptr);
  s.tags = writer->getTags();
  if (s.closeStatus && !faulty) fail("write status: final writeToFile returned %d with no fault", s.closeStatus);
}
void RecRun::checkAll() {
  // each record is in exactly one file, and in the right one
  map<string, vector<const MRec*>> byKey;
  for (auto& m : model.recs) byKey[m.key()].push_back(&m);
  map<string, int> found;
  for (size_t k = 0; k < sessions.size(); k++) {
    Session& s = sessions[k];
    char where[60];
    snprintf(where, sizeof where, "in the recording");
    // structure, from the bytes
    vector<string> paths = chunkPaths(s.path);
    bool splitFile = cfg.split && s.path != "/sim/tmp/rest.vrs" && cfg.mode != RecCfg::kSync;
    if (getenv("VRSSIM_DUMP")) {
      for (auto& pth : paths) {
        string c = sim::fs::content(pth), out = "/tmp/dump_" + pth.substr(pth.rfind('/') + 1);
        FILE* f = fopen(out.c_str(), "wb");
        fwrite(c.data(), 1, c.size(), f);
        fclose(f);
      }
    }
    RawFile raw = rawParse(concatChunks(paths), splitFile ? (int64_t)sim::fs::content(s.path).size() : -1);
    checkRawStructure(raw, where);
    if (cfg.mode == RecCfg::kSync && cfg.sortRecords) {
      for (size_t i = 1; i < raw.user.size(); i++)
        if (raw.user[i].ts < raw.user[i - 1].ts) fail("records not written in timestamp order: record %zu", i);
    }
    FileView v = readFile(s.path);
    if (v.openError) fail("recording unreadable: session %zu %s open error %d", k, s.path.c_str(), v.openError);
    if (!v.hasIndex) fail("recording without index: session %zu", k);
    vector<const MRec*> may, must;
    uint64_t prevEnd = k ? sessions[k - 1].closeEnd : 0;
    for (auto& m : model.recs) {
      if (m.begin > s.closeEnd) continue;          // created later
      bool doneBefore = m.end < s.closeBegin;      // created before closing began
      bool startedIn = m.begin > prevEnd || k == 0;
      bool certain = doneBefore && startedIn && !model.napped.count(m.sid);
      // records which raced with an earlier close are counted over all files
      if (certain) must.push_back(&m); else may.push_back(&m);
    }
    checkContents(v, must, may, where);
    for (auto& g : v.recs) found[g.asRec().key()]++;
    checkIndexOrder(v, where);
    if (cfg.sortRecords) checkCreationOrder(v, model.recs, where);
    // tags
    for (auto& t : s.tags) {
      auto it = v.tags.find(t.first);
      if (it == v.tags.end() || it->second != t.second) fail("file tag lost: '%s' session %zu", t.first.c_str(), k);
    }
    for (auto st : arena->all) {
      StreamId id = st->getStreamId();
      bool has = false;
      for (auto& g : v.recs) if (g.sid == id) has = true;
      if (!has) continue;
      if (!v.streams.count(id)) fail("stream missing: %s has records but is not listed", id.getNumericName().c_str());
      auto& tg = v.streamTags[id];
      if (tg.user != st->getStreamTags().user) fail("stream tags differ: user tags of %s", id.getNumericName().c_str());
      for (auto& t : st->getStreamTags().vrs) {
        auto it = tg.vrs.find(t.first);
        if (it == tg.vrs.end() || it->second != t.second) fail("stream tags differ: VRS tag %s of %s", t.first.c_str(), id.getNumericName().c_str());
      }
    }
    if (paths.size() > (splitFile ? 2u : 1u)) probe("recording with several chunks");
  }
  for (auto& e : byKey) {
    int n = found.count(e.first) ? found[e.first] : 0;
    if (n < (int)e.second.size() && model.napped.count(e.second[0]->sid)) continue;
    if (n != (int)e.second.size()) fail(n < (int)e.second.size() ? "record lost over all files: %s found %d" : "record duplicated over all files: %s found %d", e.second[0]->str().c_str(), n);
  }
}
} // namespace w
