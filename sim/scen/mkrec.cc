#include "mkrec.h"

namespace w {
using sim::fail;
using sim::probe;

vector<string> cutFile(Rng& r, const string& path, const string& bytes, size_t minFirst) {
  size_t n = 2 + r.below(r.chance(0.3) ? 7 : 2);
  set<size_t> cuts;
  for (size_t i = 1; i < n; i++) {
    size_t lo = std::max<size_t>(minFirst, 1);
    if (bytes.size() <= lo + 1) break;
    cuts.insert(lo + r.below(bytes.size() - lo));
  }
  vector<size_t> at(cuts.begin(), cuts.end());
  at.insert(at.begin(), 0);
  at.push_back(bytes.size());
  vector<string> paths;
  for (size_t i = 0; i + 1 < at.size(); i++) {
    string p = i == 0 ? path : path + "_" + std::to_string(i);
    sim::fs::setContent(p, bytes.substr(at[i], at[i + 1] - at[i]));
    paths.push_back(p);
  }
  for (size_t i = paths.size(); sim::fs::exists(path + "_" + std::to_string(i)); i++) sim::fs::erase(path + "_" + std::to_string(i));
  return paths;
}
void sameView(const FileView& got, const FileView& want, const char* where, bool offsets, bool strictTags) {
  if (got.openError) fail("unreadable %s: openFile returned %d", where, got.openError);
  if (got.recs.size() != want.recs.size()) fail("record count differs %s: %zu instead of %zu", where, got.recs.size(), want.recs.size());
  for (size_t i = 0; i < want.recs.size(); i++) {
    auto &a = got.recs[i], &b = want.recs[i];
    if (a.err != b.err) fail("record unreadable %s: record %zu error %d instead of %d", where, i, a.err, b.err);
    if (a.sid != b.sid || a.type != b.type || a.ts != b.ts || a.ver != b.ver || (offsets && a.offset != b.offset))
      fail("record differs %s: record %zu is %s at %ld instead of %s at %ld", where, i, a.asRec().str().c_str(), (long)a.offset, b.asRec().str().c_str(), (long)b.offset);
    if (a.data != b.data) fail("record content differs %s: record %zu %s", where, i, b.asRec().str().c_str());
  }
  if (got.tags != want.tags) fail("file tags differ %s: %zu tags instead of %zu", where, got.tags.size(), want.tags.size());
  if (!strictTags) return;
  if (got.streams != want.streams) fail("streams differ %s: %zu streams instead of %zu", where, got.streams.size(), want.streams.size());
  for (auto& s : want.streamTags) {
    auto it = got.streamTags.find(s.first);
    if (it == got.streamTags.end() || it->second.user != s.second.user || it->second.vrs != s.second.vrs) fail("stream tags differ %s: stream %s", where, s.first.getNumericName().c_str());
  }
}
Recorded makeRecording(Ctx& ctx, const MkOpts& o) {
  Rng& r = ctx.rng;
  RecCfg c = pickCfg(ctx);
  c.path = o.path;
  c.tags = o.tags;
  c.sessions = 1;
  c.streams = 1 + (int)r.below(4);
  c.late = o.tagsRecords && r.chance(0.3);
  c.mode = c.late || r.chance(0.3) ? RecCfg::kManual : RecCfg::kSync;
  if (c.mode == RecCfg::kSync) c.split = false;
  c.chunkMB = 0;
  c.pHuge = 0;
  c.producers = 1;
  c.opsPerProducer = 1 + (int)r.below((uint64_t)o.maxOps);
  c.controlOps = c.late ? 2 + (int)r.below(6) : (int)r.below(3);
  c.concurrentClose = false;
  c.closeByDestructor = false;
  c.big = r.chance(0.15) ? 20000 : o.big;
  c.pool = r.chance(0.2) ? 2 : 0;
  Recorded x;
  x.rr = std::make_unique<RecRun>(ctx, c);
  x.rr->run();
  x.rr->writer.reset();
  x.path = o.path;
  x.paths = chunkPaths(o.path);
  x.split = c.split;
  string bytes = concatChunks(x.paths);
  size_t head = c.split ? sim::fs::content(x.paths[0]).size() : 0;
  if (o.noIndex && !c.split && r.chance(0.2)) {
    // as after a crash: no index
    RawFile raw = rawParse(bytes);
    if (raw.indexOff > raw.firstUser && raw.indexOff > 0) {
      bytes.resize((size_t)raw.indexOff);
      int64_t none = 0;
      memcpy(&bytes[24], &none, 8); // index record offset
      sim::fs::setContent(x.path, bytes);
      x.indexed = false;
    }
  }
  if (o.cut && !c.split && r.chance(0.4)) x.paths = cutFile(r, x.path, bytes);
  else if (o.cut && c.split && head < bytes.size() && r.chance(0.4)) {
    // only the user records' chunks may be cut elsewhere
    Rng q = r;
    size_t n = 1 + r.below(3);
    set<size_t> cuts{head};
    for (size_t i = 0; i < n; i++) cuts.insert(head + r.below(bytes.size() - head));
    vector<size_t> at(cuts.begin(), cuts.end());
    at.insert(at.begin(), 0);
    at.push_back(bytes.size());
    x.paths.clear();
    for (size_t i = 0; i + 1 < at.size(); i++) {
      string p = i == 0 ? x.path : x.path + "_" + std::to_string(i);
      sim::fs::setContent(p, bytes.substr(at[i], at[i + 1] - at[i]));
      x.paths.push_back(p);
    }
  }
  x.ref = readFile(x.path);
  vector<const MRec*> must, may;
  for (auto& m : x.rr->model.recs) (x.rr->model.napped.count(m.sid) ? may : must).push_back(&m);
  checkContents(x.ref, must, may, "in a recording read without faults");
  if (x.ref.hasIndex != x.indexed) fail("index state differs: hasIndex %d", x.ref.hasIndex);
  if (x.paths.size() > 1) probe("recording in several chunks");
  return x;
}
} // namespace w
