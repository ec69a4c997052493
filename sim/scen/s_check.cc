// Checks, checksums and comparisons of files (C16).
#include "mkrec.h"
#include "faultpick.h"
#include <algorithm>
#include <vrs/utils/FilterCopy.h>
#include <vrs/utils/FilteredFileReader.h>
#include <vrs/utils/Validation.h>
using namespace w;
using sim::fail;
using namespace sim;
using T = Record::Type;
using vrs::utils::CheckType;
using vrs::utils::CopyOptions;
using vrs::utils::FilteredFileReader;

namespace {
// what a file says, whatever its layout
struct DRec {
  T type;
  double ts;
  uint32_t ver;
  string data;
  bool operator==(const DRec& o) const { return type == o.type && ts == o.ts && ver == o.ver && data == o.data; }
};
struct DStream {
  RecordableTypeId type;
  vrs::StreamTags tags;
  vector<DRec> recs;
};
struct Doc {
  map<string, string> tags;
  vector<DStream> streams; // sorted by type
};
Doc docOf(const FileView& v) {
  Doc d;
  d.tags = v.tags;
  map<StreamId, size_t> at;
  for (auto id : v.streams) {
    at[id] = d.streams.size();
    auto t = v.streamTags.find(id);
    d.streams.push_back({id.getTypeId(), t == v.streamTags.end() ? vrs::StreamTags() : t->second, {}});
  }
  for (auto& g : v.recs) d.streams[at.at(g.sid)].recs.push_back({g.type, g.ts, g.ver, g.data});
  return d;
}
void sortDoc(Doc& d) {
  std::stable_sort(d.streams.begin(), d.streams.end(), [](const DStream& a, const DStream& b) { return (int)a.type < (int)b.type; });
  for (auto& s : d.streams) std::stable_sort(s.recs.begin(), s.recs.end(), [](const DRec& a, const DRec& b) { return a.ts < b.ts; });
}
// the same, records of different types at the same time may come in another order
bool same(const Doc& a, const Doc& b, bool typeOrder) {
  if (a.tags != b.tags || a.streams.size() != b.streams.size()) return false;
  for (size_t i = 0; i < a.streams.size(); i++) {
    auto &x = a.streams[i], &y = b.streams[i];
    if (x.type != y.type || x.tags.vrs != y.tags.vrs || x.tags.user != y.tags.user) return false;
    if (typeOrder) {
      if (!(x.recs == y.recs)) return false;
    } else
      for (T t : {T::CONFIGURATION, T::STATE, T::DATA}) {
        vector<DRec> p, q;
        for (auto& r : x.recs) if (r.type == t) p.push_back(r);
        for (auto& r : y.recs) if (r.type == t) q.push_back(r);
        if (!(p == q)) return false;
      }
  }
  return true;
}
Doc selected(const Doc& d, double lo, double hi, const set<T>& types) {
  Doc o = d;
  for (auto& s : o.streams) {
    vector<DRec> k;
    for (auto& r : s.recs) if (r.ts >= lo && r.ts <= hi && types.count(r.type)) k.push_back(r);
    s.recs = k;
  }
  return o;
}
size_t countRecs(const Doc& d) {
  size_t n = 0;
  for (auto& s : d.streams) n += s.recs.size();
  return n;
}
string docHash(const Doc& d) {
  string s;
  for (auto& t : d.tags) s += t.first + "\1" + t.second + "\2";
  for (auto& x : d.streams) s += std::to_string((int)x.type) + ":" + std::to_string(x.recs.size()) + ";";
  return s;
}
// writes a document with some layout
void writeDoc(Ctx& ctx, const Doc& d, const string& path) {
  Rng& r = ctx.rng;
  vector<unique_ptr<vrs::utils::Writer>> ws;
  unique_ptr<vrs::TemporaryRecordableInstanceIdsResetter> reset;
  if (r.chance(0.5)) reset = std::make_unique<vrs::TemporaryRecordableInstanceIdsResetter>();
  for (auto& s : d.streams) {
    auto f = s.tags.vrs.find("VRS_Recordable_Flavor");
    ws.push_back(std::make_unique<vrs::utils::Writer>(s.type, f == s.tags.vrs.end() ? string() : f->second));
  }
  w::Writer wr;
  wr.addTags(d.tags);
  for (size_t i = 0; i < ws.size(); i++) {
    ws[i]->addTags(d.streams[i].tags);
    ws[i]->setCompression(pickPreset(r));
    wr.addRecordable(ws[i].get());
  }
  // all records in time order
  struct It { double ts; size_t s, k; };
  vector<It> all;
  for (size_t s = 0; s < d.streams.size(); s++)
    for (size_t k = 0; k < d.streams[s].recs.size(); k++) all.push_back({d.streams[s].recs[k].ts, s, k});
  std::stable_sort(all.begin(), all.end(), [](const It& a, const It& b) { return a.ts < b.ts; });
  auto put = [&](const It& t) {
    auto& x = d.streams[t.s].recs[t.k];
    vector<int8_t> v(x.data.begin(), x.data.end());
    vrs::DataSourceChunk chunk(v);
    vrs::DataSource src(chunk);
    ws[t.s]->createRecord(x.ts, x.type, x.ver, src);
  };
  bool sync = r.chance(0.3), split = !sync && r.chance(0.3);
  wr.setCompressionThreadPoolSize(r.chance(0.5) ? 0 : 2);
  if (sync) {
    for (auto& t : all) put(t);
    int st = wr.writeToFile(path);
    if (st) fail("writing failed: %d", st);
  } else {
    if (!split && r.chance(0.3)) {
      auto idx = std::make_unique<std::deque<vrs::IndexRecord::DiskRecordInfo>>();
      for (size_t i = r.below(all.size() + 1); i > 0; i--) idx->push_back({1. * (double)i, 1000, StreamId(RecordableTypeId::UnitTest1, 1), T::DATA});
      wr.preallocateIndex(std::move(idx));
    }
    int st = wr.createFileAsync(split ? "diskfile:" + path + "?split_head=1" : path);
    if (st) fail("writing failed: create returned %d", st);
    for (auto& t : all) {
      put(t);
      if (r.chance(0.1)) wr.writeRecordsAsync(t.ts - 1);
    }
    st = wr.waitForFileClosed();
    if (st) fail("writing failed: close returned %d", st);
  }
  if (!split && r.chance(0.3)) {
    string bytes = sim::fs::content(path);
    cutFile(r, path, bytes);
  }
}
string plain(const string& s) {
  string o = s;
  for (auto& c : o) if (c == '/' || c == '=') c = '_';
  return o;
}
// tags are kept free of the separators of the checksum, see the known finding
void plainTags(Doc& d) {
  auto fix = [](map<string, string>& m) {
    map<string, string> n;
    for (auto& t : m) n[plain(t.first)] = plain(t.second);
    m = n;
  };
  fix(d.tags);
  for (auto& s : d.streams) fix(s.tags.user);
}
const char* mutate(Rng& r, Doc& d) {
  vector<std::pair<size_t, size_t>> at;
  for (size_t s = 0; s < d.streams.size(); s++)
    for (size_t k = 0; k < d.streams[s].recs.size(); k++) at.emplace_back(s, k);
  auto pos = at.empty() ? std::pair<size_t, size_t>(0, 0) : at[r.below(at.size())];
  DStream* s = d.streams.empty() ? nullptr : &d.streams[at.empty() ? 0 : pos.first];
  DRec* x = at.empty() ? nullptr : &s->recs[pos.second];
  if (x && r.chance(0.2)) { // the last or first record of a stream
    pos.second = r.chance(0.7) ? s->recs.size() - 1 : 0;
    x = &s->recs[pos.second];
  }
  auto mtag = [&](map<string, string>& t) -> const char* {
    switch (t.empty() ? 0 : r.below(4)) {
      case 0: t["zz added"] = r.chance(0.5) ? "" : "v"; return "tag added";
      case 1: t.erase(std::next(t.begin(), (long)r.below(t.size()))); return "tag removed";
      case 2: std::next(t.begin(), (long)r.below(t.size()))->second += "x"; return "tag value changed";
      default: {
        auto it = std::next(t.begin(), (long)r.below(t.size()));
        string v = it->second, n = it->first + "2";
        t.erase(it);
        t[n] = v;
        return "tag renamed";
      }
    }
  };
  switch (r.below(14)) {
    case 0: return mtag(d.tags);
    case 1: if (s) return mtag(s->tags.user); break;
    case 2:
      if (s) { s->tags.vrs["VRS_Recordable_Flavor"] += "/b"; return "flavor changed"; }
      break;
    case 3:
      if (x && !x->data.empty()) {
        size_t i = r.below(x->data.size());
        if (r.chance(0.3)) i = x->data.size() - 1 - r.below(std::min<size_t>(x->data.size(), 8));
        x->data[i] = (char)(x->data[i] ^ (1 << r.below(8)));
        return "bit flipped";
      }
      break;
    case 4: if (x) { x->data += (char)r.below(256); return "payload longer"; } break;
    case 5: if (x && !x->data.empty()) { x->data.pop_back(); return "payload shorter"; } break;
    case 6: if (x) { s->recs.erase(s->recs.begin() + (long)pos.second); return "record removed"; } break;
    case 7:
      if (x) {
        DRec n = *x;
        if (r.chance(0.5)) n.data = "new";
        if (r.chance(0.4)) n.ts += r.chance(0.5) ? 0.5 : 1e-9;
        if (r.chance(0.3)) n.type = T::STATE;
        s->recs.insert(s->recs.begin() + (long)(r.chance(0.5) ? pos.second : pos.second + 1), n);
        return "record added";
      }
      break;
    case 8: if (x) { x->ts = r.chance(0.5) ? std::nextafter(x->ts, 1e9) : x->ts + 0.01; return "time changed"; } break;
    case 9: if (x) { x->ver ^= 1u << r.below(5); return "version changed"; } break;
    case 10: if (x) { x->type = x->type == T::DATA ? (r.chance(0.5) ? T::STATE : T::CONFIGURATION) : T::DATA; return "type changed"; } break;
    case 11:
      if (x && s->recs.size() > 1) { std::swap(s->recs[r.below(s->recs.size())].data, x->data); return "payloads swapped"; }
      break;
    case 12:
      if (x && d.streams.size() > 1) {
        DRec m = *x;
        s->recs.erase(s->recs.begin() + (long)pos.second);
        d.streams[r.below(d.streams.size())].recs.push_back(m);
        return "record moved to another stream";
      }
      break;
    default:
      if (s && r.chance(0.5)) {
        DStream n = *s;
        if (r.chance(0.5)) n.recs.clear();
        n.tags.vrs["VRS_Serial_Number"] = "another";
        d.streams.push_back(n);
        return "stream added";
      } else if (s) {
        d.streams.erase(d.streams.begin() + (s - &d.streams[0]));
        return "stream removed";
      }
  }
  d.tags["zz added"] = "v";
  return "tag added";
}
bool isSum(const string& s) {
  return s.size() == 16 && s.find_first_not_of("0123456789abcdefABCDEF") == string::npos;
}
struct Filter {
  bool on = false;
  double lo = std::numeric_limits<double>::lowest(), hi = std::numeric_limits<double>::max();
  set<T> types{T::CONFIGURATION, T::STATE, T::DATA};
};
int open(FilteredFileReader& f, const Filter& k) {
  vrs::utils::RecordFilterParams p;
  if (k.types.size() < 3) {
    if (k.types.count(T::CONFIGURATION)) p.includeType("configuration");
    if (k.types.count(T::STATE)) p.includeType("state");
    if (k.types.count(T::DATA)) p.includeType("data");
  }
  int st = f.openFile(p);
  if (k.on) { f.setMinTime(k.lo, false); f.setMaxTime(k.hi, false); }
  return st;
}
// answer of a check: checksum, "Checked", "Failure" or "Error"
string check(const string& path, const Filter& k, CheckType t, bool json) {
  FilteredFileReader f(path);
  int st = open(f, k);
  if (st) return "Error";
  CopyOptions o(false);
  o.jsonOutput = json;
  return vrs::utils::checkRecords(f, o, t);
}
int compare(const string& a, const string& b, const Filter& k) {
  FilteredFileReader x(a), y(b);
  if (open(x, k) || open(y, k)) return -1;
  CopyOptions o(false);
  return vrs::utils::compareVRSfiles(x, y, o);
}
Filter pickFilter(Rng& r, const Doc& d) {
  Filter k;
  vector<double> ts;
  for (auto& s : d.streams) for (auto& x : s.recs) ts.push_back(x.ts);
  if (ts.size() > 1 && r.chance(0.25)) {
    k.on = true;
    k.lo = ts[r.below(ts.size())];
    k.hi = ts[r.below(ts.size())];
    if (k.hi < k.lo) std::swap(k.lo, k.hi);
  }
  if (r.chance(0.15)) {
    k.types.erase(r.chance(0.5) ? T::DATA : T::CONFIGURATION);
    if (r.chance(0.3)) k.types.erase(T::STATE);
  }
  return k;
}
// the records of a check include the configuration and state before the start
bool sameRolled(const Doc& a, const Doc& b, const Filter& k) {
  auto upTo = [&](const Doc& d) {
    Filter all;
    Doc o = selected(d, all.lo, k.hi, k.types);
    bool any = false;
    for (auto& s : d.streams) for (auto& r : s.recs) any = any || r.ts >= k.lo;
    Doc p = selected(o, k.lo, k.hi, k.types);
    if (!k.on || !any) return p;
    for (size_t i = 0; i < o.streams.size(); i++)
      for (T t : {T::CONFIGURATION, T::STATE})
        for (size_t j = o.streams[i].recs.size(); j-- > 0;) {
          auto& x = o.streams[i].recs[j];
          if (x.ts < k.lo && x.type == t) { p.streams[i].recs.insert(p.streams[i].recs.begin(), x); break; }
        }
    return p;
  };
  return same(upTo(a), upTo(b), true);
}
void compareBytes(Rng& r, const string& pa, const string& pb, bool expectFault) {
  vrs::FileSpec a, b;
  if (vrs::RecordFileReader::vrsFilePathToFileSpec(pa, a) || vrs::RecordFileReader::vrsFilePathToFileSpec(pb, b)) {
    if (!expectFault) fail("file not found: %s", pa.c_str());
    return;
  }
  string x = concatChunks(chunkPaths(pa)), y = concatChunks(chunkPaths(pb));
  uint64_t f0 = faultsInjected();
  bool eq = vrs::utils::compareVerbatim(a, b, r.chance(0.2));
  if (eq && x != y) fail("verbatim comparison wrong: different files are equal (%zu and %zu bytes)", x.size(), y.size());
  if (!eq && x == y && faultsInjected() == f0) fail("verbatim comparison wrong: equal files of %zu bytes differ", x.size());
}
} // namespace

SCENARIO("C16", verdicts, 1) {
  ctx.begin();
  Rng& r = ctx.rng;
  MkOpts o;
  o.maxOps = r.chance(0.2) ? 40 : 12;
  o.big = 300;
  Recorded rec = makeRecording(ctx, o);
  Doc a = docOf(rec.ref);
  plainTags(a);
  writeDoc(ctx, a, "/sim/tmp/a.vrs");
  Doc b = a;
  string what = "same";
  bool mutated = r.chance(0.65);
  if (mutated) {
    what.clear();
    for (int n = r.chance(0.85) ? 1 : 2; n > 0; n--) what += string(mutate(r, b)) + " ";
    plainTags(b);
    sortDoc(b);
  }
  writeDoc(ctx, b, "/sim/tmp/b.vrs");
  // what is in the files now
  Doc fa = docOf(readFile("/sim/tmp/a.vrs")), fb = docOf(readFile("/sim/tmp/b.vrs"));
  if (!same(a, fa, true)) fail("rewriting differs: %zu records instead of %zu", countRecs(fa), countRecs(a));
  if (!same(b, fb, true)) fail("rewriting differs: %zu records instead of %zu", countRecs(fb), countRecs(b));
  logf("%s: %zu and %zu records", what.c_str(), countRecs(a), countRecs(b));
  bool faults = r.chance(0.4);
  if (faults) pickReadFaults(ctx);
  // a file whose presence can't be determined counts as absent, and its further chunks are not looked for
  faultCfg().prob[fStatFail] = 0;
  Filter all, k = r.chance(0.6) ? all : pickFilter(r, a);
  Doc sa = selected(a, k.lo, k.hi, k.types), sb = selected(b, k.lo, k.hi, k.types);
  string right[2];
  for (int i = 0; i < 2; i++) right[i] = check(i ? "/sim/tmp/b.vrs" : "/sim/tmp/a.vrs", k, CheckType::Checksum, false);
  for (int i = 0; i < 2; i++) if (!isSum(right[i])) fail("intact file not accepted: %s", right[i].c_str());
  bool roll = sameRolled(a, b, k);
  if (roll && right[0] != right[1]) fail("checksum differs: of the same records, %s and %s", right[0].c_str(), right[1].c_str());
  if (!roll && !same(sa, sb, false) && right[0] == right[1]) fail("checksum equal: %s", what.c_str());
  int n = 3 + (int)r.below(5);
  for (int i = 0; i < n; i++) {
    Rng q = ctx.opRng((uint32_t)i);
    if (!ctx.op((uint32_t)i)) continue;
    bool first = q.chance(0.5);
    string pa = first ? "/sim/tmp/a.vrs" : "/sim/tmp/b.vrs", pb = first ? "/sim/tmp/b.vrs" : "/sim/tmp/a.vrs";
    Doc& da = first ? sa : sb;
    uint64_t f0 = faultsInjected();
    armFaults(faults && q.chance(0.8));
    switch (q.below(5)) {
      case 0: {
        string s = check(pa, k, CheckType::Checksum, false);
        armFaults(false);
        bool ok = isSum(s);
        if (ok && s != right[first ? 0 : 1]) fail("checksum wrong: after %lu faults", (unsigned long)(faultsInjected() - f0));
        if (!ok && faultsInjected() == f0) fail("intact file not accepted: %s", s.c_str());
        if (!ok) probe("checksum refused");
        break;
      }
      case 1: {
        bool json = q.chance(0.3);
        string s = check(pa, k, CheckType::Check, json);
        armFaults(false);
        string want = json ? "\"good_file\":true" : "Checked " + std::to_string(countRecs(da)) + " records in ";
        bool ok = s.find(want) != string::npos;
        if (!ok && faultsInjected() == f0) fail("intact file not accepted: %s", s.c_str());
        if (!ok && !json && s.find("Failure!") == string::npos && s != "Error") fail("check answer: %s", s.c_str());
        if (!ok) probe("check failed");
        break;
      }
      case 2: {
        string s = check(pa, k, CheckType::Checksums, q.chance(0.3));
        armFaults(false);
        if (faultsInjected() == f0 && s.find(right[first ? 0 : 1]) == string::npos) fail("checksums wrong: the total isn't %s", right[first ? 0 : 1].c_str());
        break;
      }
      case 3: {
        int eq = compare(pa, pb, k);
        armFaults(false);
        if (eq == 1 && !same(sa, sb, false)) fail("comparison wrong: equal in spite of %s (%zu and %zu records)", what.c_str(), countRecs(sa), countRecs(sb));
        if (eq != 1 && same(sa, sb, true) && faultsInjected() == f0) fail("comparison wrong: the same records differ, %d", eq);
        if (eq == 1) probe("compared equal");
        if (eq == 0 && !same(sa, sb, true)) probe("compared different");
        break;
      }
      default: {
        bool sum = q.chance(0.5);
        if (sum) {
          string bytes = concatChunks(chunkPaths(pa));
          string s = vrs::utils::verbatimChecksum(pa, false);
          armFaults(false);
          if (isSum(s) && chunkPaths(pa).size() == 1) {
            sim::fs::setContent("/sim/tmp/plain", bytes);
            if (vrs::utils::verbatimChecksum("/sim/tmp/plain", false) != s) fail("verbatim checksum wrong: %s", s.c_str());
            bytes[q.below(bytes.size())] ^= 1;
            sim::fs::setContent("/sim/tmp/plain", bytes);
            if (vrs::utils::verbatimChecksum("/sim/tmp/plain", false) == s) fail("verbatim checksum wrong: %s for another content", s.c_str());
          } else if (!isSum(s) && faultsInjected() == f0) fail("verbatim checksum refused: %s", s.c_str());
        } else {
          string other = pb;
          if (q.chance(0.6)) { // the same or nearly the same bytes in other chunks
            string bytes = concatChunks(chunkPaths(pa));
            if (q.chance(0.5)) {
              size_t m = 1 + q.below(4);
              for (size_t j = 0; j < m; j++) {
                size_t p = q.chance(0.5) ? bytes.size() - 1 - q.below(std::min<size_t>(bytes.size(), 20)) : q.below(bytes.size());
                bytes[p] = (char)(bytes[p] + 1);
              }
            }
            if (q.chance(0.3)) { // longer or shorter
              size_t m = 1 + q.below(q.chance(0.5) ? 4 : 100000);
              if (q.chance(0.5)) bytes.append(m, (char)q.below(256));
              else bytes.resize(bytes.size() - std::min(m, bytes.size() - 1));
            }
            armFaults(false);
            cutFile(q, "/sim/tmp/c.vrs", bytes);
            other = "/sim/tmp/c.vrs";
            armFaults(faults);
          }
          if (q.chance(0.5)) compareBytes(q, pa, other, faults); else compareBytes(q, other, pa, faults);
        }
      }
    }
    armFaults(false);
  }
  if (countRecs(a) > 4) nontrivial();
  if (sim::fs::openHandles()) fail("files left open: %d", sim::fs::openHandles());
  ctx.end();
}

// files which are cut short, with an index at the front: checks must notice
SCENARIO("C16", truncated, 0.4) {
  ctx.begin();
  Rng& r = ctx.rng;
  MkOpts o;
  o.maxOps = 15;
  o.big = 300;
  o.cut = false;
  Recorded rec = makeRecording(ctx, o);
  string sum = check(rec.path, {}, CheckType::Checksum, false);
  if (!isSum(sum)) fail("intact file not accepted: %s", sum.c_str());
  string victim = rec.paths.back();
  string bytes = sim::fs::content(victim);
  if (bytes.size() < 2) { ctx.end(); return; }
  size_t cut = r.chance(0.5) ? bytes.size() - 1 - r.below(std::min<size_t>(bytes.size() - 1, 200)) : r.below(bytes.size());
  sim::fs::setContent(victim, bytes.substr(0, cut));
  FileView v = readFile(rec.path);
  string s = check(rec.path, {}, CheckType::Checksum, false), c = check(rec.path, {}, CheckType::Check, false);
  if (v.openError) {
    if (s != "Error" || c != "Error") fail("truncated file accepted: %s", s.c_str());
  } else if (v.readErrors) {
    if (isSum(s)) fail("truncated file accepted: checksum with %d unreadable records", v.readErrors);
    if (c.find("Failure!") != 0) fail("truncated file accepted: %s with %d unreadable records", c.c_str(), v.readErrors);
    probe("unreadable record noticed");
  } else {
    if (!isSum(s)) fail("readable file not accepted: %s", s.c_str());
    if (c.find("Checked " + std::to_string(v.recs.size()) + " records in ") != 0) fail("readable file not accepted: %s", c.c_str());
    Doc x = docOf(rec.ref), y = docOf(v);
    if (same(x, y, true) ? s != sum : s == sum) fail("checksum wrong: %zu of %zu records are left", v.recs.size(), rec.ref.recs.size());
  }
  nontrivial();
  ctx.end();
}

// tags whose names or values contain the characters that separate tags
SCENARIO("C16", separators, 0.05) {
  ctx.begin();
  Rng& r = ctx.rng;
  Doc a, b;
  string v = "v" + std::to_string(r.below(100)), n = "n" + std::to_string(r.below(100)), w = std::to_string(r.below(100));
  a.tags["a"] = v + "/" + n + "=" + w;
  b.tags["a"] = v;
  b.tags[n] = w;
  DStream s{RecordableTypeId::UnitTest1, {}, {{T::DATA, 1, 1, "data"}}};
  a.streams.push_back(s);
  b.streams = a.streams;
  if (r.chance(0.5)) std::swap(a.streams[0].tags.user, a.tags), std::swap(b.streams[0].tags.user, b.tags);
  {
    vrs::TemporaryRecordableInstanceIdsResetter reset;
    writeDoc(ctx, a, "/sim/tmp/a.vrs");
  }
  FileView va = readFile("/sim/tmp/a.vrs");
  b.streams[0].tags.vrs = va.streamTags.begin()->second.vrs;
  writeDoc(ctx, b, "/sim/tmp/b.vrs");
  if (compare("/sim/tmp/a.vrs", "/sim/tmp/b.vrs", {}) != 0) fail("comparison wrong: equal in spite of other tags");
  string x = check("/sim/tmp/a.vrs", {}, CheckType::Checksum, false), y = check("/sim/tmp/b.vrs", {}, CheckType::Checksum, false);
  if (!isSum(x) || !isSum(y)) fail("intact file not accepted: %s", x.c_str());
  if (x == y) fail("checksum equal, tags differ in their separators: a=%s/%s=%s", v.c_str(), n.c_str(), w.c_str());
  ctx.end();
}
