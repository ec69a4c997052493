// What is left after a crash, or after the disk lost the end of a file, is exactly what reached the disk (C04);
// tags survive (C10); the index can be repaired, safely (C05).
#include "rec.h"
#include "faultpick.h"
using namespace w;
using sim::fail;
using namespace sim;

namespace {
using Keys = map<string, int>;

struct Damaged {
  string path;
  bool split = false;
  RawFile raw;
  vector<MRec> recs; // complete user records, in file order
  vector<uint64_t> offs;
  bool described = false; // header and description are complete
};
Damaged parseDamaged(const string& path, bool split) {
  Damaged d;
  d.path = path;
  d.split = split;
  vector<string> paths = chunkPaths(path);
  if (paths.empty()) return d;
  string head = fs::content(paths[0]), all = concatChunks(paths);
  d.raw = rawParse(all, split ? (int64_t)head.size() : -1);
  if (!d.raw.headerOk) return d;
  uint32_t size = 0;
  const string& in = split ? head : all;
  if (d.raw.descOff > 0 && (uint64_t)d.raw.descOff + 32 <= in.size()) {
    memcpy(&size, in.data() + d.raw.descOff, 4);
    d.described = size >= 32 && (uint64_t)d.raw.descOff + size <= in.size();
  }
  for (auto& u : d.raw.user) {
    if (u.type == (uint8_t)Record::Type::TAGS) continue;
    MRec m;
    m.sid = StreamId((RecordableTypeId)u.typeId, u.inst);
    m.type = (Record::Type)u.type;
    m.ts = u.ts;
    m.ver = u.ver;
    m.data = u.payload;
    d.recs.push_back(m);
    d.offs.push_back(u.off);
  }
  return d;
}
// the reader shows exactly the complete records, at their place, in order, and all of them were created
void checkRecovered(const FileView& v, const Damaged& d, const Keys* known, const char* where) {
  if (v.openError) {
    if (!d.recs.empty() && d.described) fail("complete records not recovered %s: opening failed with %d (%s), %zu records are complete in the file", where, v.openError, vrs::errorCodeToMessage(v.openError).c_str(), d.recs.size());
    probe("damaged file refused");
    return;
  }
  map<uint64_t, const MRec*> at;
  for (size_t i = 0; i < d.recs.size(); i++) at[d.offs[i]] = &d.recs[i];
  set<uint64_t> seen;
  Keys used;
  for (auto& g : v.recs) {
    if (g.type == Record::Type::TAGS) fail("tags record shown as user record %s", where);
    MRec m = g.asRec();
    if (g.err) fail("unreadable record listed %s: %s error %d offset %ld", where, m.str().c_str(), g.err, (long)g.offset);
    auto it = at.find((uint64_t)g.offset);
    if (it == at.end()) fail("incomplete record listed %s: offset %ld, %s", where, (long)g.offset, m.str().c_str());
    if (it->second->key() != m.key()) fail("altered record %s: offset %ld reads %s, file has %s", where, (long)g.offset, m.str().c_str(), it->second->str().c_str());
    if (!seen.insert((uint64_t)g.offset).second) fail("record listed twice %s: offset %ld %s", where, (long)g.offset, m.str().c_str());
    if (known) {
      auto k = known->find(m.key());
      if (k == known->end()) fail("record was never created %s: %s", where, m.str().c_str());
      if (++used[m.key()] > k->second) fail("record duplicated %s: %s", where, m.str().c_str());
    }
  }
  if (d.described && seen.size() != at.size()) {
    for (auto& e : at) if (!seen.count(e.first)) fail("complete records not recovered %s: %zu of %zu listed, missing %s at offset %lu", where, seen.size(), at.size(), e.second->str().c_str(), (unsigned long)e.first);
  }
  checkIndexOrder(v, where);
  hist(seen.size());
}
void checkTags(const FileView& v, const Damaged& d, const map<string, string>& fileTags, const vector<TestStream*>& streams, size_t described, const char* where, const map<StreamId, string>* serials = nullptr, const set<StreamId>* needTags = nullptr) {
  for (auto& t : fileTags) {
    auto it = v.tags.find(t.first);
    if (it == v.tags.end() || it->second != t.second) fail("file tag lost %s: '%s'", where, t.first.c_str());
  }
  // streams of the description, and streams added later whose tags record is in the file
  set<StreamId> have;
  for (auto& u : d.raw.user) if (u.type == (uint8_t)Record::Type::TAGS) have.insert(StreamId((RecordableTypeId)u.typeId, u.inst));
  for (size_t i = 0; i < streams.size(); i++) {
    StreamId id = streams[i]->getStreamId();
    if (i >= described && !have.count(id) && !(needTags && needTags->count(id))) continue;
    if (i >= described) probe("tags of a late stream recovered");
    auto it = v.streamTags.find(id);
    if (it == v.streamTags.end()) fail("stream missing %s: %s", where, id.getNumericName().c_str());
    if (it->second.user != streams[i]->getStreamTags().user) fail("stream tags lost %s: user tags of %s", where, id.getNumericName().c_str());
    for (auto& t : streams[i]->getStreamTags().vrs) {
      auto x = it->second.vrs.find(t.first);
      string want = t.second; // the serial number is different in each process
      if (serials && t.first == "VRS_Serial_Number" && serials->count(id)) want = serials->at(id);
      if (x == it->second.vrs.end() || x->second != want) fail("stream tags lost %s: VRS tag %s of %s", where, t.first.c_str(), id.getNumericName().c_str());
    }
  }
}
// repairing a recording with a separate head moves the user records by the size of the index: `shift`
void sameView(const FileView& a, const FileView& b, const char* where, int64_t shift = 0) {
  if (b.openError) fail("unreadable %s: openFile returned %d", where, b.openError);
  if (a.recs.size() != b.recs.size()) fail("records changed %s: %zu before, %zu after", where, a.recs.size(), b.recs.size());
  for (size_t i = 0; i < a.recs.size(); i++) {
    if (b.recs[i].err) fail("record unreadable %s: index %zu offset %ld error %d", where, i, (long)b.recs[i].offset, b.recs[i].err);
    if (a.recs[i].asRec().key() != b.recs[i].asRec().key() || a.recs[i].offset + shift != b.recs[i].offset)
      fail("records changed %s: index %zu was %s at %ld, is %s at %ld", where, i, a.recs[i].asRec().str().c_str(), (long)a.recs[i].offset, b.recs[i].asRec().str().c_str(), (long)b.recs[i].offset);
  }
  if (a.tags != b.tags) fail("file tags changed %s", where);
  for (auto& t : a.streamTags) {
    if (t.second.user.empty() && t.second.vrs.empty()) continue; // a stream known only from a record which is not trusted
    auto it = b.streamTags.find(t.first);
    if (it == b.streamTags.end() || it->second.user != t.second.user || it->second.vrs != t.second.vrs) fail("stream tags changed %s", where);
  }
}
map<string, string> snapshot(const string& path) {
  map<string, string> m;
  for (auto& p : chunkPaths(path)) m[p] = fs::content(p);
  return m;
}
void restore(const string& path, const map<string, string>& m) {
  for (auto& p : chunkPaths(path)) if (!m.count(p)) fs::erase(p);
  for (auto& e : m) fs::setContent(e.first, e.second);
}
// cut the recording, as one sequence of bytes, at that offset
void cutAt(const string& path, const map<string, string>& m, uint64_t keep) {
  restore(path, m);
  uint64_t at = 0;
  bool first = true;
  for (auto& p : chunkPaths(path)) {
    uint64_t n = m.at(p).size();
    if (at + n > keep) {
      if (at >= keep && !first) fs::erase(p);
      else fs::setContent(p, m.at(p).substr(0, keep - at));
    }
    at += n;
    first = false;
  }
  recordFault(fTruncateFile);
}
vector<string> orderedPaths(const map<string, string>& m, const string& base) {
  vector<string> r;
  if (m.count(base)) r.push_back(base);
  for (int i = 1; m.count(base + "_" + std::to_string(i)); i++) r.push_back(base + "_" + std::to_string(i));
  return r;
}
// repairs, in every way it can be asked for
int64_t headSize(const string& path, bool split) { return split ? (int64_t)fs::content(path).size() : 0; }
void repairAndCheck(const Damaged& d, const char* where) {
  if (!d.described) {
    // not a recording any more: whatever is done must end
    readFile(d.path, true);
    readFile(d.path);
    return;
  }
  int64_t head = headSize(d.path, d.split);
  FileView v1 = readFile(d.path);
  checkRecovered(v1, d, nullptr, where);
  if (v1.openError) return;
  FileView v2 = readFile(d.path, true);
  int64_t shift = headSize(d.path, d.split) - head;
  sameView(v1, v2, "when repairing", shift);
  map<string, string> fixed = snapshot(d.path);
  FileView v3 = readFile(d.path);
  sameView(v1, v3, "after repairing", shift);
  if (!v3.hasIndex && !v3.recs.empty()) fail("no index after repairing: %zu records", v3.recs.size());
  Damaged d3 = parseDamaged(d.path, d.split);
  checkRecovered(v3, d3, nullptr, "after repairing");
  FileView v4 = readFile(d.path, true);
  sameView(v1, v4, "after repairing twice", shift);
  if (snapshot(d.path) != fixed) fail("repairing a repaired file changed it");
  if (!v1.hasIndex && !v1.recs.empty()) { probe("index repaired"); checkRawStructure(d3.raw, "after repairing"); }
}
RecCfg crashCfg(Ctx& ctx) {
  RecCfg c = pickCfg(ctx);
  c.closeByDestructor = false;
  if (ctx.rng.chance(0.15)) {
    c.async = true;
    c.engineOpts = pickEngine(ctx.rng);
    size_t p = c.engineOpts.find("=aio");
    if (p != string::npos) c.engineOpts.replace(p, 4, "=psync"); // with aio bytes reach the disk in any order
  }
  return c;
}
struct CrashRun {
  Ctx& ctx;
  RecCfg c;
  RecRun r;
  Keys known;
  vector<string> ns;
  map<string, string> extraTags; // more file tags
  CrashRun(Ctx& x, RecCfg cfg) : ctx(x), c(cfg), r(x, cfg) {}
  string path(int k) { return c.sessions == 1 ? c.path : c.path.substr(0, c.path.size() - 4) + "_s" + std::to_string(k) + ".vrs"; }
  void record() {
    r.model.onAdd = [](const MRec& m) { note("R" + m.key()); };
    if (!r.arena->onAdd) r.arena->onAdd = [](TestStream* s) { noteTags(s); };
    for (auto s : r.arena->all) noteTags(s);
    r.afterAdd = [](TestStream* s) { note("A" + s->getStreamId().getNumericName()); };
    r.afterCreate = [this](int k) { note("O" + std::to_string(k) + " " + std::to_string(r.sessions[k].tags.size())); };
    r.afterClose = [this](int k) { if (r.sessions[k].closeStatus == 0) note("C" + std::to_string(k)); };
    r.run();
  }
  static void noteTags(TestStream* s) { note("T" + s->getStreamId().getNumericName() + " " + s->getStreamTags().vrs.at("VRS_Serial_Number")); }
  map<StreamId, string> serials;
  bool has(const string& s) { for (auto& n : ns) if (n.compare(0, s.size(), s) == 0) return true; return false; }
  // second life: the streams are made again, to know their tags
  void recovered(const char* where) {
    ns = notes();
    for (auto& n : ns) if (n[0] == 'R') known[n.substr(1)]++;
    if (ctx.life) {
      while (r.arena->all.size() < 20) r.arena->add();
      for (auto& n : ns) if (n[0] == 'T') for (auto s : r.arena->all) {
        string pre = "T" + s->getStreamId().getNumericName() + " ";
        if (n.compare(0, pre.size(), pre) == 0) serials[s->getStreamId()] = n.substr(pre.size());
      }
    }
    int opened = 0;
    for (int k = 0; k < c.sessions; k++) {
      bool split = c.split && c.mode != RecCfg::kSync;
      Damaged d = parseDamaged(path(k), split);
      FileView v = readFile(path(k));
      bool closed = has("C" + std::to_string(k)), created = has("O" + std::to_string(k));
      if (closed && v.openError) fail("closed recording unreadable %s: session %d error %d", where, k, v.openError);
      if (closed && !v.hasIndex) fail("closed recording without index %s: session %d", where, k);
      checkRecovered(v, d, &known, where);
      if (created && d.described && v.openError) fail("recording unreadable %s: it was created and its description is on disk; error %d", where, v.openError);
      if (v.openError == 0 && d.described) {
        opened++;
        map<string, string> tags = extraTags;
        tags["session"] = std::to_string(k);
        tags["note"] = string(1 + k * 300, 'n');
        // streams added before the file was created are described in the file; later ones have their own record
        // a record made once its stream was added never comes without the tags of the stream
        map<string, set<string>> added; // stream, then its records made after it was added
        set<string> on;
        for (auto& n : ns) {
          if (n[0] == 'A') on.insert(n.substr(1));
          if (n[0] == 'R') for (auto& a : on) added[a].insert(n.substr(1));
        }
        set<StreamId> need;
        for (auto& m : d.recs) {
          auto it = added.find(m.sid.getNumericName());
          if (it != added.end() && known[m.key()] == 1 && it->second.count(m.key())) need.insert(m.sid);
        }
        if (!need.empty()) probe("records of a late stream recovered");
        // (unless records are written in any order)
        if (!c.sortRecords && !closed) need.clear();
        checkTags(v, d, tags, r.arena->all, (size_t)c.streams, where, &serials, &need);
        if (!closed) probe("interrupted recording read");
        if (!d.recs.empty() && !closed) probe("interrupted recording with records read");
      }
    }
    if (opened) nontrivial();
  }
};
void crashScenario(Ctx& ctx, RecCfg c, bool torn) {
  uint64_t crashIo = ctx.rng.below(1ull << ctx.rng.range(2, 9));
  if (ctx.life == 0) {
    faultCfg().crashAtIo = (int64_t)crashIo;
    faultCfg().tornCrash = torn;
    if (ctx.rng.chance(0.4)) fs::setStdioBuf(512 << ctx.rng.below(5)); else ctx.rng.below(5);
    if (ctx.rng.chance(0.3)) fs::setWriteLatency(0, 20000000);
  } else {
    if (ctx.rng.chance(0.4)) ctx.rng.below(5); else ctx.rng.below(5);
    ctx.rng.chance(0.3);
  }
  ctx.begin();
  {
    CrashRun cr(ctx, c);
    if (ctx.life == 0) {
      initFaults(ctx.seed);
      armFaults(true);
      cr.record();
      armFaults(false);
      cr.ns = notes();
      cr.recovered("after a complete run");
    } else {
      cr.recovered("after a crash");
    }
  }
  ctx.end();
}
} // namespace

SCENARIO("C04", crash_any, 3) { crashScenario(ctx, crashCfg(ctx), ctx.rng.chance(0.5)); }
SCENARIO("C04", crash_chunks, 1) {
  RecCfg c = crashCfg(ctx);
  c.mode = ctx.rng.chance(0.6) ? RecCfg::kManual : RecCfg::kAuto;
  c.split = ctx.rng.chance(0.7);
  c.chunkHandler = c.split && ctx.rng.chance(0.4);
  c.chunkMB = 1;
  c.pHuge = 0.3;
  crashScenario(ctx, c, ctx.rng.chance(0.5));
}
// the disk loses the end of a finished or unfinished recording: any offset
SCENARIO("C04", lost_end, 2) {
  RecCfg c = crashCfg(ctx);
  c.sessions = 1;
  bool noIndex = ctx.rng.chance(0.3);
  ctx.begin();
  {
    CrashRun cr(ctx, c);
    cr.r.writer->noIndex(noIndex && !c.prealloc);
    cr.record();
    cr.ns = notes();
    for (auto& n : cr.ns) if (n[0] == 'R') cr.known[n.substr(1)]++;
    bool split = c.split && c.mode != RecCfg::kSync;
    map<string, string> snap = snapshot(c.path);
    vector<string> ps = orderedPaths(snap, c.path);
    uint64_t total = 0, headSize = snap[c.path].size();
    for (auto& p : ps) total += snap[p].size();
    Damaged whole = parseDamaged(c.path, split);
    size_t streams = (size_t)c.streams;
    int n = ctx.thorough ? 60 : 25;
    for (int i = 0; i < n; i++) {
      if (!ctx.op(2000 + (uint32_t)i)) continue;
      Rng q = ctx.opRng(2000 + i);
      uint64_t keep = q.below(total + 1);
      int how = (int)q.below(6);
      bool headOnly = false;
      if (how <= 2 && !whole.raw.user.empty()) { // around a record's limits
        auto& u = whole.raw.user[q.below(whole.raw.user.size())];
        int64_t at = (int64_t)u.off + (q.chance(0.5) ? (int64_t)u.size : q.chance(0.5) ? 32 : 0) + (q.chance(0.3) ? 0 : q.range(-3, 3));
        keep = (uint64_t)std::max<int64_t>(0, std::min<int64_t>(at, (int64_t)total));
      } else if (how == 3) {
        keep = total - std::min<uint64_t>(total, q.below(200));
      } else if (how == 4 && split) {
        // only the end of the index is lost
        headOnly = true;
        // (its header was written before any user record)
        uint64_t minKeep = whole.raw.indexOff > 0 ? (uint64_t)whole.raw.indexOff + 32 : headSize;
        keep = headSize - std::min<uint64_t>(headSize, q.below(120));
        if (keep < minKeep) keep = std::min(minKeep, headSize);
      }
      if (headOnly) {
        restore(c.path, snap);
        fs::setContent(c.path, snap[c.path].substr(0, keep));
        recordFault(fTruncateFile);
      } else {
        cutAt(c.path, snap, keep);
      }
      Damaged d = parseDamaged(c.path, split);
      if (split && chunkPaths(c.path).size() < 2) { d.recs.clear(); d.offs.clear(); }
      FileView v = readFile(c.path);
      checkRecovered(v, d, &cr.known, "after losing the end of the file");
      if (v.openError == 0 && d.described) {
        checkTags(v, d, cr.r.sessions[0].tags, cr.r.arena->all, streams, "after losing the end of the file");
        nontrivial();
      }
    }
  }
  ctx.end();
}

// ---------------- C10 ----------------
namespace {
string anyText(Rng& q) {
  string s(q.chance(0.05) ? q.below(60000) : q.chance(0.2) ? q.below(2000) : q.below(24), 0);
  int how = (int)q.below(4);
  for (auto& ch : s) ch = how == 0 ? (char)q.next() : how == 1 ? (char)(q.below(3) ? 'a' + q.below(26) : 0) : how == 2 ? "{}[]\",:\\\n\t"[q.below(10)] : (char)('A' + q.below(26));
  return s;
}
map<string, string> anyTags(Rng q) {
  map<string, string> m;
  int n = q.chance(0.1) ? 200 : (int)q.below(8);
  for (int i = 0; i < n; i++) m[anyText(q)] = anyText(q);
  if (q.chance(0.2)) m[""] = anyText(q);
  return m;
}
void richTags(Ctx& ctx, TestStream* s, size_t index) {
  Rng q = ctx.opRng(7000 + index);
  map<string, string> m = anyTags(q);
  // tags set again replace those set before
  const bool again = q.chance(0.4);
  if (again) for (auto& t : m) if (q.chance(0.5)) s->setTag(t.first, t.second + "old");
  vrs::StreamTags both;
  if (q.chance(0.3)) {
    both.user = m;
    both.vrs["VRS_Serial_Number"] = s->getStreamTags().vrs.at("VRS_Serial_Number") + (q.chance(0.5) ? "x" : "");
    if (q.chance(0.5)) both.vrs["VRS_Extra"] = "e";
    s->addTags(both);
  } else if (q.chance(0.5)) s->addTags(m);
  else for (auto& t : m) s->setTag(t.first, t.second);
  for (auto& t : both.vrs) {
    auto& has = s->getStreamTags().vrs;
    auto it = has.find(t.first);
    if (it == has.end() || it->second != t.second) fail("VRS tag not set: %s", t.first.c_str());
  }
  for (auto& t : m) {
    auto it = s->getTags().find(t.first);
    if (it == s->getTags().end() || it->second != t.second) fail("stream tag not set: \"%s\"", t.first.c_str());
  }
}
void tagsScenario(Ctx& ctx, RecCfg c, bool crash, bool torn) {
  c.streams = 1 + (int)ctx.rng.below(c.late ? 3 : 8);
  c.opsPerProducer = (int)ctx.rng.below(5);
  c.producers = (int)ctx.rng.below(2);
  c.chunkMB = 0;
  c.track = false; // the estimate of the queue's size ignores tags
  uint64_t crashIo = ctx.rng.below(1ull << ctx.rng.range(2, 8));
  bool buf = ctx.rng.chance(0.4);
  size_t bufSize = 512 << ctx.rng.below(5);
  if (ctx.life == 0) {
    if (crash) { faultCfg().crashAtIo = (int64_t)crashIo; faultCfg().tornCrash = torn; }
    if (buf) fs::setStdioBuf(bufSize);
  }
  ctx.begin();
  {
    CrashRun cr(ctx, c);
    cr.extraTags = anyTags(ctx.opRng(6999));
    for (auto& t : map<string, string>{{"session", ""}, {"note", ""}}) cr.extraTags.erase(t.first);
    size_t n = 0;
    for (auto s : cr.r.arena->all) richTags(ctx, s, n++);
    // the tags must be known before the stream is added to the writer
    cr.r.arena->onAdd = [&](TestStream* s) {
      richTags(ctx, s, n++);
      if (ctx.life == 0) CrashRun::noteTags(s);
    };
    if (ctx.life == 0) {
      cr.r.writer->addTags(cr.extraTags);
      initFaults(ctx.seed);
      armFaults(crash);
      cr.record();
      armFaults(false);
      cr.ns = notes();
      cr.recovered("in a complete recording");
      for (auto& s : cr.r.sessions) {
        FileView v = readFile(s.path);
        map<string, string> want = s.tags;
        if (v.tags != want) {
          for (auto& t : v.tags) if (!want.count(t.first)) fail("file tag invented: '%s' in a complete recording", t.first.c_str());
          fail("file tags differ in a complete recording");
        }
        for (auto st : cr.r.arena->all) {
          if (v.streamTags.count(st->getStreamId()) && v.streamTags[st->getStreamId()].vrs != st->getStreamTags().vrs)
            fail("stream tags differ in a complete recording: VRS tags of %s", st->getStreamId().getNumericName().c_str());
        }
      }
    } else {
      cr.recovered("after a crash");
    }
  }
  ctx.end();
}
} // namespace
SCENARIO("C10", tags, 1) { RecCfg c = crashCfg(ctx); tagsScenario(ctx, c, false, false); }
SCENARIO("C10", tags_crash, 2) { RecCfg c = crashCfg(ctx); tagsScenario(ctx, c, true, ctx.rng.chance(0.5)); }
SCENARIO("C10", tags_late, 1) {
  RecCfg c = crashCfg(ctx);
  c.late = true;
  c.mode = ctx.rng.chance(0.5) ? RecCfg::kManual : RecCfg::kMixed;
  c.controlOps = 4 + (int)ctx.rng.below(12);
  tagsScenario(ctx, c, ctx.rng.chance(0.5), ctx.rng.chance(0.5));
}

// ---------------- C05 ----------------
namespace {
RecCfg repairCfg(Ctx& ctx) {
  RecCfg c = crashCfg(ctx);
  c.async = false;
  c.sessions = 1;
  c.producers = (int)ctx.rng.below(2);
  if (ctx.rng.chance(0.3)) {
    c.mode = RecCfg::kManual;
    c.chunkMB = 1;
    c.pHuge = 0.3;
  }
  return c;
}
// leaves an unfinished recording: index never written, or the end is lost
map<string, string> makeUnfinished(Ctx& ctx, CrashRun& cr, bool noIndex) {
  cr.r.writer->noIndex(noIndex);
  cr.record();
  map<string, string> snap = snapshot(cr.c.path);
  for (auto& n : (cr.ns = notes())) if (n[0] == 'R') cr.known[n.substr(1)]++;
  return snap;
}
// the last file of the recording loses its end
void loseMore(Rng& q, const string& path, bool split) {
  vector<string> ps = chunkPaths(path);
  if (ps.empty() || (split && ps.size() < 2)) return;
  string s = fs::content(ps.back());
  if (ps.size() == 1) {
    RawFile raw = rawParse(s, -1);
    if (raw.user.empty()) return;
    uint64_t first = raw.user[0].off;
    if (first >= s.size()) return;
    s.resize(first + q.below(s.size() - first + 1));
  } else {
    s.resize(q.chance(0.3) ? 0 : q.below(s.size() + 1));
  }
  fs::setContent(ps.back(), s);
  recordFault(fTruncateFile);
}
uint64_t pickCut(Rng& q, const Damaged& whole, uint64_t total) {
  if (q.chance(0.5) && !whole.raw.user.empty()) {
    auto& u = whole.raw.user[q.below(whole.raw.user.size())];
    int64_t at = (int64_t)u.off + (q.chance(0.5) ? (int64_t)u.size : q.chance(0.5) ? 32 : 0) + (q.chance(0.3) ? 0 : q.range(-3, 3));
    return (uint64_t)std::max<int64_t>(0, std::min<int64_t>(at, (int64_t)total));
  }
  return q.below(total + 1);
}
} // namespace
SCENARIO("C05", repair, 2) {
  RecCfg c = repairCfg(ctx);
  bool noIndex = ctx.rng.chance(0.5);
  ctx.begin();
  {
    CrashRun cr(ctx, c);
    bool split = c.split && c.mode != RecCfg::kSync;
    map<string, string> snap = makeUnfinished(ctx, cr, noIndex);
    vector<string> ps = orderedPaths(snap, c.path);
    uint64_t total = 0;
    for (auto& p : ps) total += snap[p].size();
    Damaged whole = parseDamaged(c.path, split);
    repairAndCheck(whole, noIndex ? "in an unindexed file" : "in a finished file");
    int n = ctx.thorough ? 25 : 10;
    for (int i = 0; i < n; i++) {
      if (!ctx.op(2000 + (uint32_t)i)) continue;
      Rng q = ctx.opRng(2000 + i);
      cutAt(c.path, snap, pickCut(q, whole, total));
      if (split && whole.raw.indexOff > 0 && q.chance(0.4)) {
        // the separate head lost some of its index, too
        string h = fs::content(c.path);
        uint64_t minKeep = (uint64_t)whole.raw.indexOff + 32;
        if (h.size() > minKeep) { fs::setContent(c.path, h.substr(0, minKeep + q.below(h.size() - minKeep))); probe("both the head and the data were cut"); }
      }
      Damaged d = parseDamaged(c.path, split);
      if (split && chunkPaths(c.path).size() < 2) { d.recs.clear(); d.offs.clear(); d.described = false; }
      if (d.described) nontrivial();
      repairAndCheck(d, "in a truncated file");
    }
  }
  ctx.end();
}
// the repair meets I/O errors, or a full disk: the file still yields its records
SCENARIO("C05", repair_faults, 2) {
  RecCfg c = repairCfg(ctx);
  bool noIndex = ctx.rng.chance(0.7);
  FaultConfig f0 = faultCfg();
  ctx.begin();
  {
    CrashRun cr(ctx, c);
    bool split = c.split && c.mode != RecCfg::kSync;
    map<string, string> snap = makeUnfinished(ctx, cr, noIndex);
    vector<string> ps = orderedPaths(snap, c.path);
    uint64_t total = 0;
    for (auto& p : ps) total += snap[p].size();
    Damaged whole = parseDamaged(c.path, split);
    int n = ctx.thorough ? 25 : 10;
    for (int i = 0; i < n; i++) {
      if (!ctx.op(2000 + (uint32_t)i)) continue;
      Rng q = ctx.opRng(2000 + i);
      uint64_t keep = noIndex && q.chance(0.5) ? total : pickCut(q, whole, total);
      cutAt(c.path, snap, keep);
      Damaged d = parseDamaged(c.path, split);
      if (split && chunkPaths(c.path).size() < 2) continue;
      if (!d.described) continue;
      int64_t head = headSize(c.path, split);
      FileView before = readFile(c.path);
      checkRecovered(before, d, &cr.known, "before the repair");
      FaultConfig& f = faultCfg();
      f = FaultConfig();
      static const int kinds[] = {fWriteEio, fWriteEnospc, fShortWrite, fOpenFail, fTruncFail, fSeekFail, fCloseEio, fReadEio};
      f.prob[kinds[q.below(8)]] = q.chance(0.5) ? 1.0 : 0.2;
      if (q.chance(0.3)) f.prob[kinds[q.below(8)]] = 0.2;
      for (auto& e : f.prob) if (q.chance(0.5)) f.limit[e.first] = 1;
      f.fromIo = ioCount() + q.below(40);
      if (q.chance(0.3)) f.toIo = f.fromIo + 1 + q.below(10);
      if (q.chance(0.15)) f.diskCapacity = (int64_t)fs::totalBytes() + (int64_t)q.below(300);
      armFaults(true);
      uint64_t inj = faultsInjected();
      {
        vrs::RecordFileReader r;
        r.openFile(c.path, true);
        r.closeFile();
      }
      armFaults(false);
      f.diskCapacity = -1;
      if (faultsInjected() > inj) { nontrivial(); probe("repair met an I/O error"); }
      FileView after = readFile(c.path);
      sameView(before, after, "after a repair which met an error", headSize(c.path, split) - head);
      repairAndCheck(parseDamaged(c.path, split), "after a repair which met an error");
      sameView(before, readFile(c.path), "after repairing again", headSize(c.path, split) - head);
      if (q.chance(0.4)) {
        // interrupted again, and more of the data is lost
        cutAt(c.path, snap, keep);
        f.fromIo = ioCount() + q.below(60);
        f.toIo = UINT64_MAX;
        armFaults(true);
        {
          vrs::RecordFileReader r;
          r.openFile(c.path, true);
          r.closeFile();
        }
        armFaults(false);
        f.diskCapacity = -1;
        loseMore(q, c.path, split);
        Damaged d2 = parseDamaged(c.path, split);
        if (d2.described && !(split && chunkPaths(c.path).size() < 2)) repairAndCheck(d2, "after an interrupted repair, then a loss");
      }
    }
  }
  ctx.end();
}
// the process dies in the middle of a repair
SCENARIO("C05", repair_crash, 1.5) {
  RecCfg c = repairCfg(ctx);
  bool noIndex = ctx.rng.chance(0.7), torn = ctx.rng.chance(0.5), cut = ctx.rng.chance(0.5);
  uint64_t at = ctx.rng.below(60);
  bool small = ctx.rng.chance(0.3);
  if (ctx.life == 0 && small) fs::setStdioBuf(512);
  ctx.begin();
  bool split = c.split && c.mode != RecCfg::kSync;
  if (ctx.life == 0) {
    CrashRun cr(ctx, c);
    map<string, string> snap = makeUnfinished(ctx, cr, noIndex);
    uint64_t total = 0;
    for (auto& p : orderedPaths(snap, c.path)) total += snap[p].size();
    Rng q = ctx.opRng(2000);
    if (cut) cutAt(c.path, snap, pickCut(q, parseDamaged(c.path, split), total));
    Damaged d = parseDamaged(c.path, split);
    bool usable = d.described && !(split && chunkPaths(c.path).size() < 2);
    if (usable) {
      note("D");
      for (size_t i = 0; i < d.recs.size(); i++) note("K" + d.recs[i].key() + std::to_string((int64_t)d.offs[i] - headSize(c.path, split)));
      faultCfg() = FaultConfig();
      faultCfg().crashAtIo = (int64_t)(ioCount() + at);
      faultCfg().tornCrash = torn;
      initFaults(ctx.seed);
      armFaults(true);
      readFile(c.path, true);
      armFaults(false);
    }
  }
  if (ctx.life > 0) { probe("crash during a repair"); nontrivial(); }
  vector<string> ns = notes();
  bool usable = false;
  map<string, int> want;
  for (auto& n : ns) { if (n == "D") usable = true; if (n[0] == 'K') want[n.substr(1)]++; }
  if (usable) {
    for (int pass = 0; pass < 2; pass++) {
      const char* where = pass ? "after repairing again" : "after a crash during a repair";
      FileView v = readFile(c.path, pass == 1);
      if (v.openError) fail("unreadable %s: error %d, %zu records expected", where, v.openError, want.size());
      map<string, int> got;
      for (auto& g : v.recs) {
        if (g.err) fail("record unreadable %s: offset %ld error %d", where, (long)g.offset, g.err);
        string k = g.asRec().key() + std::to_string(g.offset - headSize(c.path, split));
        if (!want.count(k)) fail("unexpected record %s: %s at %ld", where, g.asRec().str().c_str(), (long)g.offset);
        if (++got[k] > 1) fail("record listed twice %s: %s at %ld", where, g.asRec().str().c_str(), (long)g.offset);
      }
      if (got.size() != want.size()) fail("records lost %s: %zu of %zu", where, got.size(), want.size());
    }
    map<string, string> state = snapshot(c.path);
    repairAndCheck(parseDamaged(c.path, split), "after a crash during a repair");
    for (int i = 0; i < 4; i++) {
      if (!ctx.op(2100 + (uint32_t)i)) continue;
      Rng q = ctx.opRng(2100 + i);
      restore(c.path, state);
      loseMore(q, c.path, split);
      Damaged d2 = parseDamaged(c.path, split);
      if (d2.described && !(split && chunkPaths(c.path).size() < 2)) repairAndCheck(d2, "after a crash during a repair, then a loss");
    }
  }
  ctx.end();
}
// the end of the file holds zeros or noise instead of what was written last
SCENARIO("C05", repair_noise, 1) {
  RecCfg c = repairCfg(ctx);
  c.prealloc = false;
  ctx.begin();
  {
    CrashRun cr(ctx, c);
    bool split = c.split && c.mode != RecCfg::kSync;
    map<string, string> snap = makeUnfinished(ctx, cr, true);
    vector<string> ps = orderedPaths(snap, c.path);
    uint64_t total = 0;
    for (auto& p : ps) total += snap[p].size();
    Damaged whole = parseDamaged(c.path, split);
    int n = ctx.thorough ? 20 : 8;
    for (int i = 0; i < n; i++) {
      if (!ctx.op(2000 + (uint32_t)i)) continue;
      Rng q = ctx.opRng(2000 + i);
      uint64_t keep = pickCut(q, whole, total);
      uint64_t lastUserEnd = whole.raw.user.empty() ? total : whole.raw.user.back().off + whole.raw.user.back().size;
      if (whole.raw.user.empty() || keep < whole.raw.user[0].off || keep > lastUserEnd) continue;
      cutAt(c.path, snap, keep);
      Damaged d = parseDamaged(c.path, split);
      vector<string> left = chunkPaths(c.path);
      if (split && left.size() < 2) continue;
      string tail(1 + q.below(q.chance(0.5) ? 60 : 600), 0);
      if (q.chance(0.4)) for (auto& ch : tail) ch = (char)q.next();
      fs::setContent(left.back(), fs::content(left.back()) + tail);
      recordFault(fGarbage);
      int64_t head = headSize(c.path, split);
      FileView v1 = readFile(c.path);
      if (v1.openError) fail("unreadable with noise at the end: %d", v1.openError);
      // complete records before the noise are all there, except possibly the last one
      map<uint64_t, const MRec*> good;
      for (size_t k = 0; k < d.recs.size(); k++) good[d.offs[k]] = &d.recs[k];
      size_t seen = 0;
      for (auto& g : v1.recs) {
        auto it = good.find((uint64_t)g.offset);
        if (it == good.end()) continue; // may be made of noise
        seen++;
        if (g.err || it->second->key() != g.asRec().key()) fail("altered record with noise at the end: offset %ld error %d", (long)g.offset, g.err);
      }
      if (seen + 1 < good.size()) fail("complete records not recovered with noise at the end: %zu of %zu", seen, good.size());
      nontrivial();
      bool allGood = true;
      for (auto& g : v1.recs) if (g.err) allGood = false;
      FileView v2 = readFile(c.path, true);
      if (!allGood) continue;
      int64_t shift = headSize(c.path, split) - head;
      sameView(v1, v2, "when repairing a file with noise at the end", shift);
      FileView v3 = readFile(c.path);
      sameView(v1, v3, "after repairing a file with noise at the end", shift);
      if (!v3.hasIndex && !v3.recs.empty()) fail("no index after repairing a file with noise at the end: %zu records", v3.recs.size());
    }
  }
  ctx.end();
}
