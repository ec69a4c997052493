#include "rec.h"
using namespace w;
using sim::fail;
using namespace sim;

// order of the index, creation order, index entries against the bytes
static void orderCheck(RecRun& r) {
  for (size_t k = 0; k < r.sessions.size(); k++) {
    Session& s = r.sessions[k];
    FileView v = readFile(s.path);
    if (v.openError) fail("recording unreadable: session %zu open error %d", k, v.openError);
    checkIndexOrder(v, "in the recording");
    if (r.cfg.sortRecords) checkCreationOrder(v, r.model.recs, "in the recording");
    bool splitFile = r.cfg.split && s.path != "/sim/tmp/rest.vrs" && r.cfg.mode != RecCfg::kSync;
    vector<string> paths = chunkPaths(s.path);
    RawFile raw = rawParse(concatChunks(paths), splitFile ? (int64_t)sim::fs::content(s.path).size() : -1);
    checkRawStructure(raw, "in the recording");
    bool oneGo = r.cfg.mode == RecCfg::kSync || s.path == "/sim/tmp/rest.vrs";
    if (oneGo && r.cfg.sortRecords)
      for (size_t i = 1; i < raw.user.size(); i++)
        if (raw.user[i].ts < raw.user[i - 1].ts) fail("records not in timestamp order in a file written in one go: record %zu ts %.17g after %.17g", i, raw.user[i].ts, raw.user[i - 1].ts);
    // what the reader says about each position is what is there
    map<uint64_t, const RawRec*> at;
    for (auto& u : raw.user) at[u.off] = &u;
    size_t tagsRecs = 0;
    for (auto& u : raw.user) if (u.type == (uint8_t)Record::Type::TAGS) tagsRecs++;
    for (auto& g : v.recs) {
      auto it = at.find((uint64_t)g.offset);
      if (it == at.end()) fail("index entry points to no record: offset %ld", (long)g.offset);
      const RawRec& u = *it->second;
      if (u.ts != g.ts || u.typeId != (int32_t)g.sid.getTypeId() || u.inst != g.sid.getInstanceId() || u.type != (uint8_t)g.type)
        fail("index entry describes another record: offset %ld", (long)g.offset);
      if (g.err) fail("record unreadable: offset %ld error %d", (long)g.offset, g.err);
      if (g.data != u.payload || g.ver != u.ver) fail("index entry delivers another payload: offset %ld", (long)g.offset);
    }
    if (v.recs.size() + tagsRecs != raw.user.size()) fail("index incomplete: %zu entries, %zu records", v.recs.size(), raw.user.size() - tagsRecs);
    // the positions reported for a stream are those of its records, in the same order
    vrs::RecordFileReader rd;
    if (rd.openFile(s.path)) fail("recording unreadable: reopening");
    for (auto id : rd.getStreams()) {
      const auto& idx = rd.getIndex(id);
      size_t n = 0;
      for (auto& e : rd.getIndex()) {
        if (e.streamId != id) continue;
        if (n >= idx.size() || idx[n]->fileOffset != e.fileOffset || idx[n]->timestamp != e.timestamp) fail("stream index differs from the file index: stream %s entry %zu", id.getNumericName().c_str(), n);
        n++;
      }
      if (n != idx.size()) fail("stream index differs from the file index: stream %s has %zu entries instead of %zu", id.getNumericName().c_str(), idx.size(), n);
    }
  }
}
static void orderRun(Ctx& ctx, RecCfg c, int collectors) {
  ctx.begin();
  RecRun r(ctx, c);
  vector<std::thread> extra;
  std::atomic<bool> stop{false};
  if (c.mode != RecCfg::kSync) {
    r.afterCreate = [&](int k) {
      stop = false;
      for (int t = 0; t < collectors; t++)
        extra.emplace_back([&, t, k] {
          for (int i = 0; i < 12 && !stop; i++) {
            if (!ctx.op(1500 + k * 60 + t * 20 + i)) continue;
            Rng q = ctx.opRng(1500 + k * 60 + t * 20 + i);
            r.writer->writeRecordsAsync(q.chance(0.4) ? Record::kMaxTimestamp : r.clock.load() - (double)q.below(4));
            if (q.chance(0.3)) sleepNs((int64_t)q.below(300000000));
          }
        });
    };
    r.beforeClose = [&](int) {
      stop = true;
      for (auto& t : extra) t.join();
      extra.clear();
    };
  }
  r.run();
  r.flushRest();
  orderCheck(r);
  if (r.model.recs.size() > 5) nontrivial();
  ctx.end();
}
SCENARIO("C02", order_any, 2) {
  RecCfg c = pickCfg(ctx);
  if (ctx.rng.chance(0.8)) c.tsMode = 1 + (int)ctx.rng.below(3);
  orderRun(ctx, c, 0);
}
SCENARIO("C02", order_collectors, 2.5) {
  RecCfg c = pickCfg(ctx);
  c.tsMode = 1 + (int)ctx.rng.below(3);
  c.mode = ctx.rng.chance(0.5) ? RecCfg::kMixed : RecCfg::kManual;
  c.producers = 1 + (int)ctx.rng.below(3);
  c.opsPerProducer = 10 + (int)ctx.rng.below(25);
  c.sortRecords = true;
  c.pool = ctx.rng.chance(0.4) ? 1 + (int)ctx.rng.below(3) : 0;
  c.closeByDestructor = false;
  if (c.split) c.chunkMB = 0;
  orderRun(ctx, c, 1 + (int)ctx.rng.below(2));
}
