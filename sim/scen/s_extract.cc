// C23: extraction writes what the recording holds, or says that it could not.
#include "alloc.h"
#include "faultpick.h"
#include "structrec.h"
#include <cmath>
#include <sstream>
#include <fmt/format.h>
#include <png.h>
#include <vrs/helpers/Rapidjson.hpp>
#include <vrs/utils/BufferRecordReader.hpp>
#include <vrs/utils/FilteredFileReader.h>
#include <vrs/utils/PixelFrame.h>
#include <vrs/utils/cli/DataExtraction.h>
#include <vrs/utils/DataExtractor.h>
#include <vrs/utils/AudioTrackExtractor.h>
using namespace w;
using namespace vrs;
using sim::fail;
using sim::nontrivial;
using sim::probe;
using sim::Rng;

namespace {
struct Img {
  StreamId id;
  uint32_t n = 0; // counted per stream
  double ts = 0;
  const XBlock* b = nullptr;
};
struct Aud {
  StreamId id;
  double ts = 0;
  const XBlock* b = nullptr;
};
struct Pix {
  uint32_t w = 0, h = 0, type = 0, depth = 0;
  string data;
};
bool decodePng(const string& s, Pix& out) {
  struct Src { const string& s; size_t at; } src{s, 0};
  if (s.size() < 8 || png_sig_cmp((png_const_bytep)s.data(), 0, 8)) return false;
  png_structp p = png_create_read_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr);
  png_infop info = png_create_info_struct(p);
  if (setjmp(png_jmpbuf(p))) {
    png_destroy_read_struct(&p, &info, nullptr);
    return false;
  }
  png_set_read_fn(p, &src, [](png_structp q, png_bytep d, png_size_t n) {
    Src* x = (Src*)png_get_io_ptr(q);
    if (x->s.size() - x->at < n) png_error(q, "truncated");
    memcpy(d, x->s.data() + x->at, n);
    x->at += n;
  });
  png_read_info(p, info);
  out.w = png_get_image_width(p, info);
  out.h = png_get_image_height(p, info);
  out.type = png_get_color_type(p, info);
  out.depth = png_get_bit_depth(p, info);
  if (out.depth == 16) png_set_swap(p);
  png_read_update_info(p, info);
  size_t row = png_get_rowbytes(p, info);
  out.data.assign(row * out.h, 0);
  for (uint32_t y = 0; y < out.h; y++) png_read_row(p, (png_bytep)&out.data[y * row], nullptr);
  png_read_end(p, info);
  png_destroy_read_struct(&p, &info, nullptr);
  return src.at == s.size();
}
// the pixels of formats which PNG can hold as they are
bool pixelsOf(const ImgV& v, const string& b, Pix& out) {
  size_t px = 0, parts = 1;
  int shift = 0;
  bool swap = false;
  out = Pix{v.w, v.h, PNG_COLOR_TYPE_GRAY, 8, ""};
  switch (v.pf) {
    case PixelFormat::GREY8: px = 1; break;
    case PixelFormat::GREY10: px = 2; out.depth = 16; shift = 6; break;
    case PixelFormat::GREY12: px = 2; out.depth = 16; shift = 4; break;
    case PixelFormat::GREY16: px = 2; out.depth = 16; break;
    case PixelFormat::RGB8: case PixelFormat::BGR8: px = 1; parts = 3; swap = v.pf == PixelFormat::BGR8; break;
    default: return false;
  }
  if (parts == 3) out.type = PNG_COLOR_TYPE_RGB;
  size_t line = v.w * px * parts, stride = v.stride ? v.stride : line;
  for (uint32_t y = 0; y < v.h; y++) {
    string l = b.substr(y * stride, line);
    if (swap) for (size_t k = 0; k + 2 < l.size(); k += 3) std::swap(l[k], l[k + 2]);
    if (px == 2)
      for (size_t k = 0; k + 1 < l.size(); k += 2) {
        uint16_t t;
        memcpy(&t, &l[k], 2);
        t = (uint16_t)(t << shift);
        memcpy(&l[k], &t, 2);
      }
    out.data += l;
  }
  return true;
}
// what the conversion makes of an image, in memory; empty when there is none
string pngOf(const XBlock& b) {
  ImgV v = b.img;
  string bytes = b.bytes;
  ImageContentBlockSpec spec(v.pf, v.w, v.h, v.stride, v.stride2);
  if (spec.getPlaneCount() == 1 && v.stride) { // without what is between lines
    v.stride = v.stride2 = 0;
    size_t line = rawImageSize(v) / v.h;
    bytes.clear();
    for (uint32_t y = 0; y < v.h; y++) bytes += b.bytes.substr((size_t)y * b.img.stride, line);
    spec = ImageContentBlockSpec(v.pf, v.w, v.h);
  }
  auto f = std::make_shared<utils::PixelFrame>(spec);
  if (f->getBuffer().size() != bytes.size()) fail("image buffer of another size: %zu bytes instead of %zu, %s", f->getBuffer().size(), bytes.size(), v.str().c_str());
  memcpy(f->wdata(), bytes.data(), bytes.size());
  std::shared_ptr<utils::PixelFrame> n;
  utils::PixelFrame::normalizeFrame(f, n, true);
  vector<uint8_t> out;
  auto pf = n->getPixelFormat();
  if (pf != PixelFormat::GREY8 && pf != PixelFormat::GREY16 && pf != PixelFormat::RGB8 && pf != PixelFormat::RGBA8) return "";
  if (n->writeAsPng("", &out)) return "";
  return string((const char*)out.data(), out.size());
}
template <class T> T le(const string& s, size_t at) { T t; memcpy(&t, s.data() + at, sizeof t); return t; }

struct Extraction {
  const StructFile& sf;
  bool all; // images, audio and the rest, rather than one of them
  vector<Img> imgs;
  vector<Aud> auds;
  bool convertible = true;
  Extraction(const StructFile& f, bool wantImages, bool wantAudio) : sf(f), all(wantImages && wantAudio) {
    for (auto& s : f.streams) {
      uint32_t n = 0;
      for (auto& x : s->recs)
        for (auto& b : x.blocks) {
          auto t = b.b->type;
          if (t == ContentType::DATA_LAYOUT || t == ContentType::EMPTY) continue;
          if (t == ContentType::IMAGE && wantImages) imgs.push_back(Img{s->getStreamId(), ++n, x.ts, &b});
          else if (t == ContentType::AUDIO && wantAudio) auds.push_back(Aud{s->getStreamId(), x.ts, &b});
          else if (!all) break; // these extractors stop there
        }
    }
  }
  static string sub(StreamId id) { return id.getNumericName(); }
  void checkImages(const string& folder, bool raw) {
    map<string, int> files;
    for (auto& i : imgs) {
      string dir = all ? folder + "/" + sub(i.id) : folder;
      string prefix = fmt::format("{}-{:05}-{:.3f}", i.id.getNumericName(), i.n, i.ts);
      string found;
      for (auto& f : sim::fs::listDir(dir)) {
        string n = f.substr(f.rfind('/') + 1); // a name
        if (n.compare(0, prefix.size(), prefix) || (n.size() > prefix.size() && isdigit(n[prefix.size()]))) continue;
        if (!found.empty()) fail("image extracted twice: %s", prefix.c_str());
        found = n;
      }
      if (found.empty()) fail("image missing: %s, %s, though the extraction succeeded", prefix.c_str(), i.b->img.str().c_str());
      files[dir + "/" + found]++;
      string got = sim::fs::content(dir + "/" + found);
      if (raw || i.b->img.fmt != ImageFormat::RAW) {
        if (got != i.b->bytes) fail("image differs: %s has %zu bytes instead of %zu, though the extraction succeeded", found.c_str(), got.size(), i.b->bytes.size());
        continue;
      }
      Pix p, q;
      if (!decodePng(got, p)) fail("image incomplete: %s has %zu bytes, though the extraction succeeded", found.c_str(), got.size());
      if (!pixelsOf(i.b->img, i.b->bytes, q)) {
        string png = pngOf(*i.b);
        if (png.empty() || !decodePng(png, q)) fail("image without a conversion: %s", i.b->img.str().c_str());
      } else {
        probe("pixels kept as they were");
      }
      if (p.w != q.w || p.h != q.h || p.type != q.type || p.depth != q.depth) fail("image differs: %s is %ux%u", found.c_str(), p.w, p.h);
      if (p.data != q.data) fail("image differs: the pixels of %s, %s", found.c_str(), i.b->img.str().c_str());
    }
    for (auto& f : files) if (f.second > 1) fail("images under the same name: %s", f.first.c_str());
    if (!all) {
      size_t n = sim::fs::listDir(folder).size();
      if (n != files.size()) fail("images extracted: %zu files for %zu images", n, files.size());
    }
    if (!imgs.empty()) probe("images extracted");
  }
  // one file of audio has these blocks
  void checkWav(const string& path, const vector<const Aud*>& v) {
    string got = sim::fs::content(path), want;
    const AudV& a = v[0]->b->aud;
    size_t frame = sampleSize(a.sf) * a.channels, stride = a.stride ? a.stride : frame;
    for (auto* x : v) for (uint32_t k = 0; k < x->b->aud.samples; k++) want += x->b->bytes.substr(k * stride, frame);
    if (got.size() != 44 + want.size()) fail("audio differs: %s has %zu bytes instead of %zu, though the extraction succeeded", path.c_str(), got.size(), 44 + want.size());
    if (got.substr(44) != want) fail("audio differs: the samples in %s", path.c_str());
    if (got.substr(0, 4) != "RIFF" || got.substr(8, 8) != "WAVEfmt " || got.substr(36, 4) != "data" || le<uint32_t>(got, 16) != 16) fail("audio header differs: %s", path.c_str());
    if (le<uint32_t>(got, 4) != 36 + want.size() || le<uint32_t>(got, 40) != want.size()) fail("audio header differs: sizes %u and %u for %zu bytes", le<uint32_t>(got, 4), le<uint32_t>(got, 40), want.size());
    if (le<uint16_t>(got, 22) != a.channels || le<uint32_t>(got, 24) != a.rate || le<uint32_t>(got, 28) != a.rate * frame || le<uint16_t>(got, 32) != frame || le<uint16_t>(got, 34) != sampleSize(a.sf) * 8)
      fail("audio header differs: %s for %s", path.c_str(), a.str().c_str());
    probe("audio extracted");
  }
  static bool same(const AudV& a, const AudV& b) { return a.sf == b.sf && a.channels == b.channels && a.rate == b.rate && (a.stride ? a.stride : sampleSize(a.sf) * a.channels) == (b.stride ? b.stride : sampleSize(b.sf) * b.channels); }
  void checkAudio(const string& folder) {
    size_t files = 0;
    for (auto& s : sf.streams) {
      vector<vector<const Aud*>> runs;
      for (auto& a : auds) {
        if (a.id != s->getStreamId()) continue;
        if (runs.empty() || !same(runs.back().back()->b->aud, a.b->aud)) runs.emplace_back();
        runs.back().push_back(&a);
      }
      for (size_t k = 0; k < runs.size(); k++) {
        string name = fmt::format("{}-{:04}-{:.3f}.wav", s->getStreamId().getNumericName(), k, runs[k][0]->ts);
        string path = (all ? folder + "/" + sub(s->getStreamId()) : folder) + "/" + name;
        if (!sim::fs::exists(path)) fail("audio missing: %s, though the extraction succeeded", name.c_str());
        checkWav(path, runs[k]);
        files++;
      }
    }
    if (!all && sim::fs::exists(folder) && sim::fs::listDir(folder).size() != files) fail("audio extracted: %zu files instead of %zu", sim::fs::listDir(folder).size(), files);
  }
  void checkMetadata(const string& folder) {
    using namespace vrs_rapidjson;
    string s = sim::fs::content(folder + "/metadata.jsons");
    vector<string> lines;
    std::istringstream in(s);
    for (string l; std::getline(in, l);) lines.push_back(l);
    if (s.empty() || s.back() != '\n') fail("metadata incomplete: %zu bytes, though the extraction succeeded", s.size());
    auto empty = [](const XRec& x) { for (auto& b : x.blocks) if (b.b->type != ContentType::EMPTY) return false; return true; };
    size_t total = 0; // records without content are left out
    for (auto& x : sf.streams) for (auto& q : x->recs) total += !empty(q);
    if (lines.size() != 1 + 2 * total) fail("metadata differs: %zu lines for %zu records", lines.size(), total);
    map<StreamId, size_t> next;
    map<string, const StructStream*> byName;
    for (auto& x : sf.streams) byName[x->getStreamId().getNumericName()] = x.get();
    double last = -1e300;
    for (size_t k = 1; k + 1 < lines.size(); k += 2) {
      JDocument head, body;
      head.Parse(lines[k].c_str());
      body.Parse(lines[k + 1].c_str());
      if (head.HasParseError() || !head.IsObject() || !head.HasMember("stream") || !head.HasMember("timestamp") || !head.HasMember("type")) fail("metadata of a record unreadable: %s", lines[k].c_str());
      if (body.HasParseError() || !body.IsObject() || !body.HasMember("content") || !body["content"].IsArray()) fail("metadata of a record unreadable: %s", lines[k + 1].c_str());
      auto it = byName.find(head["stream"].GetString());
      if (it == byName.end()) fail("metadata of another stream: %s", lines[k].c_str());
      size_t& n = next[it->second->getStreamId()];
      while (n < it->second->recs.size() && empty(it->second->recs[n])) n++;
      if (n >= it->second->recs.size()) fail("metadata of extra records: %s", lines[k].c_str());
      const XRec& x = it->second->recs[n++];
      double ts = head["timestamp"].GetDouble();
      if (std::fabs(ts - x.ts) > 1e-6 || string(head["type"].GetString()) != Record::typeName(x.type)) fail("metadata of another record: %s instead of %s", lines[k].c_str(), strTs(x.ts).c_str());
      if (ts < last) fail("metadata out of order: %s", lines[k].c_str());
      last = ts;
      size_t want = 0;
      for (auto& b : x.blocks) want += b.b->type != ContentType::AUDIO && b.b->type != ContentType::EMPTY;
      if (body["content"].Size() != want) fail("metadata of blocks differs: %u blocks instead of %zu: %s", (unsigned)body["content"].Size(), want, lines[k + 1].c_str());
      size_t at = 0;
      for (auto& b : x.blocks) {
        if (b.b->type == ContentType::AUDIO || b.b->type == ContentType::EMPTY) continue;
        auto& v = body["content"][(unsigned)at++];
        if (!v.IsObject()) fail("metadata of blocks differs: %s", lines[k + 1].c_str());
        if (b.b->type == ContentType::IMAGE) {
          if (!v.HasMember("image")) fail("metadata of an image differs: %s", lines[k + 1].c_str());
          string f = folder + "/" + it->first + "/" + v["image"].GetString();
          if (!sim::fs::exists(f)) fail("image missing: %s in the metadata", f.c_str());
        } else if (b.b->type == ContentType::CUSTOM) {
          if (!v.HasMember("custom") || v["custom"]["size"].GetUint64() != b.bytes.size()) fail("metadata of a custom block differs: %s", lines[k + 1].c_str());
        } else if (v.HasMember("unsupported_block") || v.HasMember("image") || v.HasMember("custom")) {
          fail("metadata of a layout differs: %s", lines[k + 1].c_str());
        }
      }
    }
    string readme = sim::fs::content(folder + "/ReadMe.md");
    if (readme.size() < 100) fail("ReadMe incomplete: %zu bytes, though the extraction succeeded", readme.size());
    probe("everything extracted");
  }
};
enum How { kAll, kAllFiltered, kImages, kImagesRaw, kAudio, kTrack };
} // namespace

SCENARIO("C23", extraction, 1) {
  Rng& r = ctx.rng;
  StructOpts so;
  so.streams = 1 + (int)r.below(3);
  so.maxRecords = 8;
  so.lossy = false;
  so.media = true;
  bool faults = r.chance(0.5), readFaults = faults && r.chance(0.3);
  int rounds = 1 + (int)r.below(3);
  ctx.begin();
  {
    StructFile sf(ctx, so);
    sf.record();
    if (readFaults) pickReadFaults(ctx);
    else if (faults) {
      pickWriteFaults(ctx, false, false);
      sim::faultCfg().pathFilter = [](const string& p) { return p.find("/sim/tmp/out") == 0; };
    }
    for (int k = 0; k < rounds; k++) {
      How how = (How)r.below(6);
      string folder = "/sim/tmp/out" + std::to_string(k);
      Extraction e(sf, how != kAudio && how != kTrack, how != kImages && how != kImagesRaw);
      bool raw = how == kImagesRaw, convertible = true;
      if (how != kAudio && how != kTrack && !raw)
        for (auto& i : e.imgs)
          if (i.b->img.fmt == ImageFormat::RAW && pngOf(*i.b).empty()) convertible = false;
      uint64_t before = sim::faultsInjected();
      int status = 0;
      string track;
      bool inject = faults && !(readFaults && how != kAll && how != kAllFiltered && how != kAudio); // only these tell of unread records
      sim::armFaults(inject);
      if (how == kAll) {
        status = utils::DataExtractor::extractAll(sf.path, folder);
      } else {
        utils::FilteredFileReader f(sf.path);
        int err = f.openFile();
        if (err && sim::faultsInjected() == before) fail("unreadable: opening the recording returned %d", err);
        if (err) { sim::armFaults(false); continue; }
        if (how == kAllFiltered) status = utils::extractAll(folder, f);
        else if (how == kAudio) status = utils::extractAudio(folder, f);
        else if (how == kTrack) track = utils::extractAudioTrack(f, folder + "/track");
        else utils::extractImages(folder, f, raw, nullptr);
      }
      sim::armFaults(false);
      bool faulted = sim::faultsInjected() != before;
      if (how == kTrack) {
        using namespace vrs_rapidjson;
        JDocument d;
        d.Parse(track.c_str());
        if (d.HasParseError() || !d.HasMember("status")) fail("no status: %s", track.c_str());
        bool good = string(d["status"].GetString()) == "success";
        size_t streams = 0, fmts = 0;
        const Aud* prev = nullptr;
        for (auto& s : sf.streams) { bool any = false; for (auto& p : s->recs) for (auto& b : p.blocks) any |= b.b->type == ContentType::AUDIO; streams += any; }
        for (auto& a : e.auds) { if (!prev || !Extraction::same(prev->b->aud, a.b->aud)) fmts++; prev = &a; }
        if (good && !e.auds.empty()) {
          if (streams != 1 || fmts != 1) fail("audio track extracted, though there are %zu streams and %zu formats", streams, fmts);
          vector<const Aud*> v;
          for (auto& a : e.auds) v.push_back(&a);
          e.checkWav(folder + "/track.wav", v);
          probe("track extracted");
        }
        continue;
      }
      if (status) {
        if (!faulted && convertible) fail("extraction failed: status %d (%s), without a fault", status, errorCodeToMessage(status).c_str());
        probe(faulted ? "extraction failed" : "images without a conversion");
        continue;
      }
      if (!convertible) { probe("images without a conversion"); continue; }
      bool silent = how == kImages || how == kImagesRaw; // they have no way to report a failure
      if (silent && faulted) { probe("images extracted with faults"); continue; }
      if (how != kAudio) e.checkImages(folder, raw);
      if (how != kImages && how != kImagesRaw) e.checkAudio(folder);
      if (how == kAll || how == kAllFiltered) e.checkMetadata(folder);
      if (faulted) probe("extracted in spite of faults");
      if (e.imgs.size() + e.auds.size() > 4) nontrivial();
      if (k) probe("extracted again");
    }
  }
  ctx.end();
}

// extraction of damaged recordings: any outcome, but memory stays safe and it ends
SCENARIO("C12", damaged_extract, 1.5) {
  Rng& r = ctx.rng;
  StructOpts o;
  o.streams = 1 + (int)r.below(2);
  o.maxRecords = 10;
  o.plain = r.chance(0.8);
  o.media = r.chance(0.7);
  int rounds = ctx.thorough ? 12 : 6;
  ctx.begin();
  {
    StructFile sf(ctx, o);
    sf.record();
    sim::gTolerateHugeAlloc = true; // what a damaged record says that it holds is believed
    string good = sim::fs::content(sf.path);
    for (int k = 0; k < rounds; k++) {
      if (!ctx.op((uint32_t)(10 + k))) continue;
      Rng g = ctx.opRng((uint64_t)(10 + k));
      string bad = good;
      damageString(g, bad, g.chance(0.8) ? good.size() / 3 : 80);
      sim::fs::setContent(sf.path, bad);
      How how = (How)g.below(6);
      string folder = "/sim/tmp/out" + std::to_string(k);
      AllocTrack track(bad.size());
      if (how == kAll) {
        utils::DataExtractor::extractAll(sf.path, folder);
        continue;
      }
      utils::FilteredFileReader f(sf.path);
      if (f.openFile()) { probe("damaged file rejected"); continue; }
      if (how == kAllFiltered) utils::extractAll(folder, f);
      else if (how == kAudio) utils::extractAudio(folder, f);
      else if (how == kTrack) utils::extractAudioTrack(f, folder + "/track");
      else utils::extractImages(folder, f, how == kImagesRaw, nullptr);
      probe("damaged file extracted");
    }
    nontrivial();
  }
  ctx.end();
}
