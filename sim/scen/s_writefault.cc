#include "rec.h"
#include "faultpick.h"
using namespace w;
using sim::fail;
using namespace sim;

// every session which reported success is complete; every record is in at most one successful file
static void checkFaulty(RecRun& r, bool strictMust) {
  map<string, int> found, made;
  for (auto& m : r.model.recs) made[m.key()]++;
  for (size_t k = 0; k < r.sessions.size(); k++) {
    Session& s = r.sessions[k];
    bool clean = s.createStatus == 0 && s.closeStatus == 0;
    if (!clean) { probe("session ended with an error"); continue; }
    probe("session ended with success");
    FileView v = readFile(s.path);
    if (v.openError) fail("success reported but the file is unreadable: session %zu open error %d", k, v.openError);
    if (!v.hasIndex) fail("success reported but the file has no index: session %zu", k);
    vector<const MRec*> may, must;
    uint64_t prevEnd = k ? r.sessions[k - 1].closeEnd : 0;
    for (auto& m : r.model.recs) {
      if (m.begin > s.closeEnd) continue;
      bool certain = m.end < s.closeBegin && m.begin > s.createEnd && (m.begin > prevEnd || k == 0);
      if (k == 0 && m.end < s.closeBegin) certain = true;
      // a failed session may have taken records with it, so only records made in this session are certain
      if (certain && strictMust && !r.model.napped.count(m.sid)) must.push_back(&m); else may.push_back(&m);
    }
    checkContents(v, must, may, "in a recording reported as successful");
    checkIndexOrder(v, "in a recording reported as successful");
    for (auto& g : v.recs) if (g.type != Record::Type::TAGS) found[g.asRec().key()]++;
    for (auto& t : s.tags) {
      auto it = v.tags.find(t.first);
      if (it == v.tags.end() || it->second != t.second) fail("file tag lost: '%s' in a recording reported as successful", t.first.c_str());
    }
  }
  for (auto& e : found)
    if (e.second > made[e.first]) fail("record duplicated over all files: %d copies of %d", e.second, made[e.first]);
}
static void faultRun(Ctx& ctx, RecCfg c, bool headOnly = false) {
  pickWriteFaults(ctx, c.async, c.pHuge > 0);
  if (headOnly) {
    faultCfg().pathFilter = [](const string& p) { return p.size() > 4 && p.compare(p.size() - 4, 4, ".vrs") == 0; };
    fs::setStdioBuf(16 << ctx.rng.below(6));
    FaultConfig& f = faultCfg();
    if (ctx.rng.chance(0.8)) { // one failure, maybe after a part was written
      f.fromIo = ctx.rng.below(60);
      f.toIo = ~0ull;
      f.prob.clear();
      int k = ctx.rng.chance(0.5) ? fWriteEio : fWriteEnospc;
      f.prob[k] = 1;
      f.limit[k] = 1;
      f.prob[fShortWrite] = ctx.rng.chance(0.5) ? 0.3 : 0;
    }
  }
  c.closeByDestructor = false;
  ctx.begin();
  RecRun r(ctx, c);
  r.faulty = true;
  initFaults(ctx.seed);
  armFaults(true);
  r.run();
  armFaults(false);
  faultCfg().diskCapacity = -1;
  // the writer is still usable: an asynchronous recording, then one in one go, with what is left
  if (ctx.rng.chance(0.5)) {
    r.sessions.emplace_back();
    Session& s = r.sessions.back();
    s.path = "/sim/tmp/after.vrs";
    s.tags = r.writer->getTags();
    s.createBegin = stepCount();
    s.createStatus = r.writer->createFileAsync(uri(c, s.path));
    s.createEnd = stepCount();
    if (s.createStatus) fail("writer unusable after a failure: createFileAsync returned %d", s.createStatus);
    for (int i = 0; i < 3; i++) r.arena->all[ctx.rng.below(r.arena->all.size())]->make(r.clock.load(), Record::Type::DATA, 4, makePayload(r.model.nextId++, pickSize(ctx.rng, 2000), 2));
    s.closeBegin = stepCount();
    s.closeStatus = r.writer->waitForFileClosed();
    s.closeEnd = stepCount();
    if (s.closeStatus) fail("writer unusable after a failure: waitForFileClosed returned %d for the next recording", s.closeStatus);
  }
  r.flushRest();
  if (r.sessions.back().closeStatus) fail("writer unusable after a failure: writeToFile returned %d", r.sessions.back().closeStatus);
  checkFaulty(r, true);
  if (c.track) {
    uint64_t q = r.writer->getBackgroundThreadQueueByteSize();
    if (q) fail("queue size accounting: %lu bytes still counted after a failed recording was closed", (unsigned long)q);
  }
  if (faultsInjected()) nontrivial();
  ctx.end();
}
SCENARIO("C03", write_faults, 3) { faultRun(ctx, pickCfg(ctx)); }
SCENARIO("C03", write_faults_chunks, 1.5) {
  RecCfg c = pickCfg(ctx);
  c.mode = ctx.rng.chance(0.7) ? RecCfg::kManual : RecCfg::kAuto;
  c.chunkMB = 1;
  c.pHuge = 0.4;
  c.split = ctx.rng.chance(0.6);
  c.chunkHandler = c.split;
  faultRun(ctx, c);
}
// the index is in a file of its own, several writes happen there while recording
SCENARIO("C03", write_faults_head, 1) {
  RecCfg c = pickCfg(ctx);
  c.mode = ctx.rng.chance(0.7) ? RecCfg::kManual : RecCfg::kAuto;
  c.split = true;
  c.prealloc = false;
  c.chunkHandler = ctx.rng.chance(0.4);
  faultRun(ctx, c, ctx.rng.chance(0.8));
}
SCENARIO("C03", write_faults_async, 2) {
  RecCfg c = pickCfg(ctx);
  if (c.mode == RecCfg::kSync) c.mode = RecCfg::kManual;
  c.async = true;
  c.engineOpts = pickEngine(ctx.rng);
  faultRun(ctx, c);
}
