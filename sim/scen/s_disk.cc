// Disk files, plain and asynchronous, against arrays of bytes (C18, C07).
#include "rec.h"
#include "faultpick.h"
#include <vrs/AsyncDiskFileChunk.h>
using namespace w;
using sim::fail;
using namespace sim;

namespace {
string bytesOf(Rng& q, size_t n) {
  string s(n, 0);
  uint64_t v = q.next();
  for (size_t i = 0; i < n; i++) {
    if (i % 8 == 0) v = v * 6364136223846793005ull + 1442695040888963407ull;
    s[i] = (char)(v >> (8 + 7 * (i % 8)));
  }
  return s;
}
size_t diskSize(Rng& q, bool small) {
  static const size_t edge[] = {0, 1, 2, 511, 512, 513, 4095, 4096, 4097, 8192, 12288, 16384, 20000};
  if (q.chance(0.35)) return edge[q.below(small ? 9 : 13)];
  return q.below(q.chance(0.5) ? 40 : !small || q.chance(0.2) ? 12000 : 2000);
}

template <class F>
struct DM {
  F file;
  vector<string> paths, data; // chunks
  vector<int64_t> offs;
  size_t cur = 0;
  int64_t pos = 0;       // in the current chunk
  bool posKnown = false; // after an error the position is not specified
  bool readOnly = true;
  bool bad = false;      // an operation reported an error while writing
  bool lastKnown = true; // the handler knows the size of the last chunk
  bool async = false;
  bool quiet = true;     // no fault can happen
  uint64_t errors = 0;

  string sizes() const { string s; for (auto& d : data) s += std::to_string(d.size()) + " "; return s; }
  int64_t total() const { int64_t t = 0; for (auto& d : data) t += (int64_t)d.size(); return t; }
  int64_t gpos() const { return offs[cur] + pos; }
  void layout() {
    int64_t o = 0;
    offs.clear();
    for (auto& d : data) { offs.push_back(o); o += (int64_t)d.size(); }
  }
  bool last() const { return cur + 1 == data.size(); }
  string all() const { string s; for (auto& d : data) s += d; return s; }
  // place the model at a global offset, wherever the chunk
  void place(int64_t g) {
    size_t c = 0;
    while (c + 1 < data.size() && g >= offs[c] + (int64_t)data[c].size()) c++;
    cur = c;
    pos = g - offs[c];
  }
  // an operation returned `st`; `before`: faults injected when it began
  bool ok(int st, uint64_t before, const char* what) {
    if (st == 0) return true;
    if (faultsInjected() == before && quiet) fail("status: %s returned %d (%s) with no fault", what, st, vrs::errorCodeToMessage(st).c_str());
    errors++;
    posKnown = false;
    if (!readOnly) bad = true;
    return false;
  }
  void where(const char* after) {
    if (!posKnown || bad) return;
    uint64_t before = faultsInjected();
    int64_t g = file.getPos();
    if (faultsInjected() != before) return;
    if (g != gpos()) fail("position differs: %ld instead of %ld after %s", (long)g, (long)gpos(), after);
    string path;
    size_t index = 0;
    if (!file.getCurrentChunk(path, index)) fail("no current chunk after %s", after);
    if (index >= data.size() || path != paths[index]) fail("current chunk differs after %s: %zu %s", after, index, path.c_str());
    int64_t size = (int64_t)data[index].size();
    bool isLast = index + 1 == data.size();
    if (g < offs[index] || (g > offs[index] + size && (readOnly || !isLast))) fail("current chunk does not contain the position after %s: chunk %zu", after, index);
    int64_t cp = file.getChunkPos();
    if (cp != g - offs[index]) fail("position in the chunk differs after %s: %ld instead of %ld", after, (long)cp, (long)(g - offs[index]));
    cur = index; // at the limit of two chunks both are right
    pos = cp;
    if (lastKnown) {
      int64_t off = -1, sz = -1;
      if (file.getChunkRange(off, sz)) fail("status: getChunkRange failed after %s", after);
      bool found = false, empties = false;
      for (size_t i = 0; i < data.size(); i++) {
        if (offs[i] == off && (int64_t)data[i].size() == sz) found = true;
        if (data[i].empty()) empties = true;
      }
      if (!found || off > g || (off + sz < g && readOnly)) fail("chunk range differs after %s: [%ld, +%ld] at %ld", after, (long)off, (long)sz, (long)g);
      if (g < total() && !empties && off + sz <= g) fail("chunk range ends before the position after %s", after);
    }
    checkSizes(after);
  }
  void checkSizes(const char* after) {
    if (!lastKnown) return;
    if (file.getTotalSize() != total()) fail("total size differs: %ld instead of %ld after %s", (long)file.getTotalSize(), (long)total(), after);
    auto ch = file.getFileChunks();
    if (ch.size() != data.size()) fail("chunk count differs: %zu instead of %zu after %s", ch.size(), data.size(), after);
    for (size_t i = 0; i < ch.size(); i++)
      if (ch[i].first != paths[i] || ch[i].second != (int64_t)data[i].size()) fail("chunk list differs after %s: chunk %zu is %s with %ld bytes", after, i, ch[i].first.c_str(), (long)ch[i].second);
  }
  void seek(int64_t g) { logf("op seek %ld at chunk %zu pos %ld (%d) sizes %s", (long)g, cur, (long)pos, (int)posKnown, sizes().c_str());
    uint64_t before = faultsInjected();
    int st = file.setPos(g);
    bool beyond = g > total();
    if (g < 0 || (readOnly && beyond)) {
      if (st == 0) fail("position outside of the file accepted: %ld of %ld", (long)g, (long)total());
      posKnown = false;
      return;
    }
    if (!ok(st, before, "setPos")) return;
    place(g);
    posKnown = true;
    if (readOnly && g < total()) {
      if (file.isEof()) fail("end of file reported before the end: position %ld of %ld", (long)g, (long)total());
    }
    where("setPos");
  }
  void skip(int64_t n) { logf("op skip %ld at chunk %zu pos %ld (%d) sizes %s", (long)n, cur, (long)pos, (int)posKnown, sizes().c_str());
    if (!posKnown) return;
    uint64_t before = faultsInjected();
    int64_t g = gpos() + n;
    int st = file.skipForward(n);
    if (readOnly && g > total()) {
      if (st == 0) fail("position outside of the file accepted: skip to %ld of %ld", (long)g, (long)total());
      posKnown = false;
      return;
    }
    if (!ok(st, before, "skipForward")) return;
    place(g);
    where("skipForward");
  }
  void read(size_t n) { logf("op read %ld at chunk %zu pos %ld (%d) sizes %s", (long)(int64_t)n, cur, (long)pos, (int)posKnown, sizes().c_str());
    if (!posKnown) return;
    const size_t guard = 16;
    string buf(n + guard, '\xA5');
    uint64_t before = faultsInjected();
    int64_t g = gpos();
    string want = all();
    size_t avail = g < (int64_t)want.size() ? std::min<size_t>(n, want.size() - g) : 0;
    int st = file.read(buf.data(), n);
    size_t got = file.getLastRWSize();
    for (size_t i = n; i < n + guard; i++) if (buf[i] != '\xA5') fail("read wrote past its buffer: %zu bytes asked", n);
    if (bad) return;
    if (got > n || got > avail) fail("read claims too many bytes: %zu of %zu, %zu available", got, n, avail);
    if (got && memcmp(buf.data(), want.data() + g, got)) fail("read delivered wrong bytes: %zu bytes at %ld, status %d", got, (long)g, st);
    bool faulted = faultsInjected() != before || (async && faultsInjectedKind(fShortRead)); // a short pread is an error
    if (st != 0 && !readOnly && st != vrs::DISKFILE_NOT_ENOUGH_DATA && (faultsInjected() || faultsInjectedKind(fShortWrite))) faulted = true; // a write failed earlier
    if (st == 0) {
      if (got != n) fail("short read reported as success: %zu of %zu bytes at %ld of %zu", got, n, (long)g, want.size());
      if (n) place2(g + (int64_t)n);
      where("read");
      return;
    }
    if (!faulted) {
      if (avail == n) fail("status: read returned %d (%s) with no fault", st, vrs::errorCodeToMessage(st).c_str());
      if (got != avail) fail("short read: %zu bytes delivered, %zu available", got, avail);
      if (quiet && st != vrs::DISKFILE_NOT_ENOUGH_DATA) fail("status: reading past the end returned %d", st);
      if (!(async && !lastKnown) && !file.isEof()) fail("end of file not reported after reading past it");
      if (file.getLastError() != st) fail("last error differs: %d, read returned %d", file.getLastError(), st);
      probe("read past the end");
    } else {
      if (!readOnly) bad = true;
      probe("read met an error");
    }
    posKnown = false;
  }
  // as place, but the position may stay at the end of the current chunk
  void place2(int64_t g) {
    if (g >= offs[cur] && g <= offs[cur] + (int64_t)data[cur].size()) { pos = g - offs[cur]; return; }
    place(g);
    where("moving");
  }
  void put(size_t c, int64_t at, const string& s, size_t from, size_t n) {
    if (n == 0) return;
    if ((int64_t)data[c].size() < at + (int64_t)n) data[c].resize((size_t)at + n, 0);
    memcpy(&data[c][(size_t)at], s.data() + from, n);
  }
  void overwrite(const string& s) { logf("op overwrite %ld at chunk %zu pos %ld (%d) sizes %s", (long)(int64_t)s.size(), cur, (long)pos, (int)posKnown, sizes().c_str());
    if (!posKnown) return;
    uint64_t before = faultsInjected();
    int st = file.overwrite(s.data(), s.size());
    size_t wrote = file.getLastRWSize();
    if (!ok(st, before, "overwrite")) { if (wrote > s.size()) fail("overwrite claims too many bytes: %zu of %zu", wrote, s.size()); return; }
    if (bad) return;
    if (wrote != s.size()) fail("overwrite: %zu of %zu bytes reported as success", wrote, s.size());
    size_t done = 0;
    while (done < s.size()) {
      size_t n = s.size() - done;
      if (!last()) {
        int64_t room = std::max<int64_t>((int64_t)data[cur].size() - pos, 0);
        n = std::min<size_t>(n, (size_t)room);
      }
      put(cur, pos, s, done, n);
      done += n;
      pos += (int64_t)n;
      if (done < s.size()) { cur++; pos = 0; }
      else if (last() && n) lastKnown = false;
    }
    if (!last()) probe("overwrite in an earlier chunk");
    where("overwrite");
  }
  // only where the chunk may grow
  void write(const string& s) { logf("op write %ld at chunk %zu pos %ld (%d) sizes %s", (long)(int64_t)s.size(), cur, (long)pos, (int)posKnown, sizes().c_str());
    if (!posKnown) return;
    uint64_t before = faultsInjected();
    int st = file.write(s.data(), s.size());
    size_t wrote = file.getLastRWSize();
    if (!ok(st, before, "write")) { if (wrote > s.size()) fail("write claims too many bytes: %zu of %zu", wrote, s.size()); return; }
    if (bad) return;
    if (wrote != s.size()) fail("write: %zu of %zu bytes reported as success", wrote, s.size());
    if (last()) { put(cur, pos, s, 0, s.size()); if (!s.empty()) lastKnown = false; pos += (int64_t)s.size(); where("write"); }
    else { put(cur, pos, s, 0, s.size()); pos += (int64_t)s.size(); } // a truncation follows
  }
  void truncate() { logf("op truncate %ld at chunk %zu pos %ld (%d) sizes %s", (long)0L, cur, (long)pos, (int)posKnown, sizes().c_str());
    if (!posKnown) return;
    uint64_t before = faultsInjected();
    int st = file.truncate();
    if (!ok(st, before, "truncate")) return;
    if (bad) return;
    data[cur].resize((size_t)pos, 0);
    if (last()) lastKnown = true;
    layout();
    where("truncate");
  }
  void addChunk(const string& path) { logf("op addChunk %ld at chunk %zu pos %ld (%d) sizes %s", (long)(int64_t)path.size(), cur, (long)pos, (int)posKnown, sizes().c_str());
    if (!posKnown) return;
    uint64_t before = faultsInjected();
    int st = file.addChunk();
    if (!ok(st, before, "addChunk")) return;
    if (bad) return;
    data.emplace_back();
    paths.push_back(path);
    layout();
    cur = data.size() - 1;
    pos = 0;
    lastKnown = true; // and empty
    where("addChunk");
  }
  void compare(const char* when) {
    for (size_t i = 0; i < data.size(); i++) {
      if (!fs::exists(paths[i])) fail("chunk missing %s: %zu of %zu", when, i, data.size());
      string c = fs::content(paths[i]);
      if (c == data[i]) continue;
      size_t k = 0;
      while (k < c.size() && k < data[i].size() && c[k] == data[i][k]) k++;
      fail("content differs %s: chunk %zu has %zu bytes instead of %zu, first difference at %zu", when, i, c.size(), data[i].size(), k);
    }
  }
};
string nextChunkName(const string& base, size_t count) {
  if (base.size() > 2 && base.substr(base.size() - 2) == "_1") return base.substr(0, base.size() - 1) + std::to_string(count + 1);
  return base + "_" + std::to_string(count);
}
vrs::FileSpec::Extras pickOptions(Rng& q, bool async) {
  vrs::FileSpec::Extras m;
  if (!async) {
    if (q.chance(0.3)) m["io_buffer_size"] = std::to_string(q.chance(0.3) ? 0 : 512 << q.below(5));
    return m;
  }
  static const char* eng[] = {"sync", "psync", "aio", "aio"};
  m["ioengine"] = eng[q.below(4)];
  m["direct"] = q.chance(0.5) ? "1" : "0";
  bool tight = q.chance(0.5);
  m["mem_align"] = m["offset_align"] = tight ? "512" : "4096";
  size_t unit = tight ? 512 : 4096;
  m["buffer_size"] = std::to_string(unit * (1 + q.below(q.chance(0.7) ? 3 : 12)));
  m["buffer_count"] = std::to_string(1 + q.below(6));
  if (q.chance(0.7)) m["iodepth"] = std::to_string(1 + q.below(5));
  return m;
}
enum Where { kRead, kUpdate, kCreate };

template <class F>
void diskRun(Ctx& ctx, bool async, int mode, bool faults) {
  Rng& r = ctx.rng;
  if (faults) {
    if (mode == kRead) pickReadFaults(ctx); else pickWriteFaults(ctx, async, false);
    if (mode != kRead && r.chance(0.3)) faultCfg().prob[fReadEio] = 0.2;
    // short files: faults must come early
    if (r.chance(0.7)) { faultCfg().fromIo = r.below(40); faultCfg().toIo = r.chance(0.5) ? ~0ull : faultCfg().fromIo + 1 + r.below(60); }
    if (faultCfg().diskCapacity > 0) faultCfg().diskCapacity += 4000;
  }
  if (r.chance(0.4)) fs::setStdioBuf(512 << r.below(4));
  if (async && r.chance(0.7)) fs::setAioLatency(0, (int64_t)r.below(30000000));
  ctx.begin();
  {
    DM<F> m;
    m.async = async;
    m.quiet = !faults;
    string base = r.chance(0.2) ? "/sim/tmp/part_1" : "/sim/tmp/disk.bin";
    vrs::FileSpec::Extras opts = pickOptions(r, async);
    int nOps = 4 + (int)r.below(ctx.thorough ? 60 : 36);
    initFaults(ctx.seed);
    if (mode != kCreate) {
      size_t n = 1 + r.below(r.chance(0.3) ? 9 : 4);
      vrs::FileSpec spec;
      for (size_t i = 0; i < n; i++) {
        string p = i == 0 ? base : nextChunkName(base, i);
        if (r.chance(0.1)) p += ".part";
        m.paths.push_back(p);
        m.data.push_back(bytesOf(r, r.chance(0.12) ? 0 : diskSize(r, true)));
        fs::setContent(p, m.data.back());
        spec.chunks.push_back(p);
      }
      m.layout();
      spec.extras = opts;
      if (r.chance(0.15)) { // a missing chunk is an error
        vrs::FileSpec no = spec;
        no.chunks.push_back("/sim/tmp/nothing");
        if (m.file.openSpec(no) == 0) fail("missing chunk accepted");
        if (m.file.isOpened()) fail("file open after a failure to open it");
      }
      if (faults && r.chance(0.3)) {
        armFaults(true);
        uint64_t before = faultsInjected();
        int st = m.file.openSpec(spec);
        if (st && faultsInjected() == before) fail("status: openSpec returned %d with no fault", st);
        armFaults(false);
        if (st) { if (m.file.isOpened()) fail("file open after a failure to open it"); if ((st = m.file.openSpec(spec))) fail("status: openSpec returned %d once the fault is gone", st); }
      } else if (int st = m.file.openSpec(spec)) fail("status: openSpec returned %d with no fault", st);
      if (!m.file.isOpened() || !m.file.isReadOnly()) fail("opened file is not open for reading");
      m.posKnown = true;
      m.where("opening");
      if (r.chance(0.4)) m.read(diskSize(r, true));
    }
    armFaults(faults);
    if (mode == kCreate) {
      uint64_t before = faultsInjected();
      int st = m.file.create(base, opts);
      m.readOnly = false;
      m.data.emplace_back();
      m.paths.push_back(base);
      m.layout();
      if (m.ok(st, before, "create")) { m.posKnown = true; if (!m.file.isOpened() || m.file.isReadOnly()) fail("created file is not open for writing"); }
    }
    if (mode == kUpdate) {
      uint64_t before = faultsInjected();
      char b = 1;
      if (m.file.write(&b, 1) == 0 || m.file.overwrite(&b, 1) == 0 || m.file.truncate() == 0) fail("read-only file modified");
      int st = m.file.reopenForUpdates();
      m.readOnly = false;
      if (m.ok(st, before, "reopenForUpdates")) { if (m.file.isReadOnly()) fail("file reopened for updates is read-only"); m.posKnown = false; }
    }
    bool writing = mode == kCreate; // stdio needs a seek between reads and writes
    for (int i = 0; i < nOps; i++) {
      if (!ctx.op(100 + (uint32_t)i)) continue;
      if (m.bad && mode != kRead) break;
      Rng q = ctx.opRng(100 + i);
      int64_t total = m.total();
      auto anyPos = [&]() -> int64_t {
        int how = (int)q.below(6);
        if (how == 0) { size_t c = q.below(m.data.size()); return m.offs[c]; }
        if (how == 1) { size_t c = q.below(m.data.size()); return std::max<int64_t>(0, std::min<int64_t>(total, m.offs[c] + (int64_t)m.data[c].size() + q.range(-2, 2))); }
        if (how == 2) return total;
        return (int64_t)q.below((uint64_t)total + 1);
      };
      int what = (int)q.below(10);
      if (mode == kRead) {
        switch (what) {
          case 0: case 1: m.seek(anyPos()); break;
          case 2: m.skip((int64_t)q.below(q.chance(0.5) ? 30 : 3000)); break;
          case 3: if (q.chance(0.3)) m.seek(total + 1 + (int64_t)q.below(100)); else m.seek(anyPos()); break;
          case 4:
            if (q.chance(0.2) && m.posKnown) {
              int64_t g = (int64_t)q.below((uint64_t)total + 100);
              string p;
              size_t ci = 0;
              m.file.getCurrentChunk(p, ci);
              m.file.forgetFurtherChunks(g);
              while (m.data.size() > ci + 1 && m.offs.back() >= g) { m.data.pop_back(); m.paths.pop_back(); m.layout(); probe("chunks forgotten"); }
              if (m.cur >= m.data.size()) { m.cur = m.data.size() - 1; m.pos = (int64_t)m.data.back().size(); }
              m.where("forgetting chunks");
            }
            break;
          default: if (!m.posKnown) m.seek(anyPos()); m.read(diskSize(q, true));
        }
        continue;
      }
      if (!m.posKnown) { m.seek(anyPos()); writing = false; continue; }
      auto forWriting = [&] { if (!writing) { m.seek(m.gpos()); writing = true; } };
      switch (what) {
        case 0: case 1: {
          int64_t g = anyPos();
          if (q.chance(0.1)) g = total + (int64_t)q.below(5000);
          m.seek(g);
          writing = false;
          break;
        }
        case 2: m.skip((int64_t)q.below(q.chance(0.6) ? 20 : 3000)); writing = false; break;
        case 3: case 4:
          if (mode == kUpdate) { m.seek(m.gpos()); writing = false; if (m.posKnown && m.gpos() <= m.total()) m.read(diskSize(q, true)); }
          else { forWriting(); m.overwrite(bytesOf(q, diskSize(q, false))); }
          break;
        case 5: forWriting(); m.overwrite(bytesOf(q, diskSize(q, mode == kUpdate))); break;
        case 6:
          if (q.chance(0.4)) {
            forWriting();
            if (!m.last() && m.posKnown) {
              m.write(bytesOf(q, diskSize(q, true)));
              if (!m.bad) probe("chunk resized");
            }
            m.truncate();
            writing = true;
          }
          break;
        case 7:
          if (mode == kCreate) {
            // a new chunk comes after all of the last one
            m.seek(total);
            if (m.posKnown && !m.last()) break;
            m.addChunk(nextChunkName(base, m.data.size()));
            writing = true;
            break;
          }
          [[fallthrough]];
        default:
          if (m.last()) { forWriting(); m.write(bytesOf(q, diskSize(q, false))); }
          else { forWriting(); m.overwrite(bytesOf(q, diskSize(q, false))); }
      }
    }
    if (mode == kRead) {
      armFaults(false);
      if (m.errors) { probe("reading goes on after an error"); }
      for (int i = 0; i < 4; i++) {
        // the fault is gone: everything reads
        int64_t g = (int64_t)r.below((uint64_t)m.total() + 1);
        m.quiet = true;
        m.seek(g);
        m.read((size_t)std::min<int64_t>(m.total() - g, (int64_t)r.below(5000)));
      }
      if (int st = m.file.close()) fail("status: close returned %d with no fault", st);
      m.compare("after reading");
    } else {
      uint64_t before = faultsInjected();
      int st = m.file.close();
      armFaults(false);
      if (st && !faults) fail("status: close returned %d with no fault", st);
      if (st == 0 && faultsInjected() == before && m.file.isOpened()) fail("file open after close");
      if (st == 0 && !m.bad) {
        m.compare("after a successful close");
        if (faultsInjected()) probe("success in spite of faults");
        for (auto& f : fs::listDir("/sim/tmp")) {
          const string& p = f;
          bool ours = false;
          for (auto& x : m.paths) if (x == p) ours = true;
          if (!ours && mode == kCreate) fail("unexpected file after a successful close: %s", p.c_str());
        }
      } else {
        probe("error reported");
      }
      // the same object still works
      faultCfg().diskCapacity = -1;
      string again = bytesOf(r, 3000 + r.below(20000));
      int e[4] = {m.file.create("/sim/tmp/again.bin", opts), 0, 0, 0};
      e[1] = m.file.write(again.data(), again.size());
      e[2] = m.file.getPos() == (int64_t)again.size() ? 0 : 1;
      e[3] = m.file.close();
      if (e[0] || e[1] || e[2] || e[3]) fail("file object unusable after %s: %d %d %d %d", m.bad || st ? "a failure" : "a success", e[0], e[1], e[2], e[3]);
      if (fs::content("/sim/tmp/again.bin") != again) fail("content differs in a file made after %s", m.bad || st ? "a failure" : "a success");
    }
    if (fs::openHandles()) fail("file descriptors left open: %d", fs::openHandles());
    if (!faults || faultsInjected()) nontrivial();
    hist(m.all());
  }
  ctx.end();
}
} // namespace

SCENARIO("C18", disk_read, 1.5) { diskRun<vrs::DiskFile>(ctx, false, kRead, false); }
SCENARIO("C18", disk_read_faults, 2) { diskRun<vrs::DiskFile>(ctx, false, kRead, true); }
SCENARIO("C18", disk_update, 1.5) { diskRun<vrs::DiskFile>(ctx, false, kUpdate, false); }
SCENARIO("C18", disk_update_faults, 2) { diskRun<vrs::DiskFile>(ctx, false, kUpdate, true); }
SCENARIO("C18", disk_create, 1.5) { diskRun<vrs::DiskFile>(ctx, false, kCreate, false); }
SCENARIO("C18", disk_create_faults, 2) { diskRun<vrs::DiskFile>(ctx, false, kCreate, true); }

SCENARIO("C07", async_create, 2.5) { diskRun<vrs::AsyncDiskFile>(ctx, true, kCreate, false); }
SCENARIO("C07", async_create_faults, 3) { diskRun<vrs::AsyncDiskFile>(ctx, true, kCreate, true); }
SCENARIO("C07", async_update, 1) { diskRun<vrs::AsyncDiskFile>(ctx, true, kUpdate, false); }
SCENARIO("C07", async_update_faults, 1.5) { diskRun<vrs::AsyncDiskFile>(ctx, true, kUpdate, true); }
SCENARIO("C07", async_read, 0.5) { diskRun<vrs::AsyncDiskFile>(ctx, true, kRead, false); }
SCENARIO("C07", async_read_faults, 0.5) { diskRun<vrs::AsyncDiskFile>(ctx, true, kRead, true); }
SCENARIO("C07", async_record, 2) {
  RecCfg c = pickCfg(ctx);
  if (c.mode == RecCfg::kSync && ctx.rng.chance(0.6)) c.mode = RecCfg::kManual;
  c.async = true;
  c.engineOpts = pickEngine(ctx.rng);
  if (ctx.rng.chance(0.5)) fs::setAioLatency(0, (int64_t)ctx.rng.below(30000000));
  ctx.begin();
  {
    RecRun rr(ctx, c);
    rr.run();
    rr.flushRest();
    rr.checkAll();
    if (rr.model.recs.size() > 3) nontrivial();
  }
  ctx.end();
}
