#include "structrec.h"
#include <algorithm>
#include <sstream>
#include <vrs/DataLayoutConventions.h>
#include <vrs/os/System.h>

namespace w {
using namespace vrs;
namespace dc = datalayout_conventions;
using sim::fail;
using sim::probe;

string ImgV::str() const {
  return vrs::toString(fmt) + "/" + vrs::toString(pf) + "/" + std::to_string(w) + "x" + std::to_string(h) + "/" + std::to_string(stride) + "/" + std::to_string(stride2) + "/" + codec + "/" +
      std::to_string(quality) + (key ? "/key " + strTs(keyTs) + " " + std::to_string(keyIdx) : "");
}
string AudV::str() const {
  return vrs::toString(fmt) + "/" + vrs::toString(sf) + "/" + std::to_string(channels) + "ch/stride " + std::to_string(stride) + "/" + std::to_string(rate) + "Hz/" + std::to_string(samples) + " samples/" + std::to_string(pairs) + " pairs";
}
size_t sampleSize(AudioSampleFormat f) {
  using A = AudioSampleFormat;
  switch (f) {
    case A::S8: case A::U8: case A::A_LAW: case A::MU_LAW: return 1;
    case A::S16_LE: case A::U16_LE: case A::S16_BE: case A::U16_BE: return 2;
    case A::S24_LE: case A::U24_LE: case A::S24_BE: case A::U24_BE: return 3;
    case A::F64_LE: case A::F64_BE: return 8;
    default: return 4;
  }
}
// bytes per line and number of lines of each plane, as documented with the pixel formats
size_t rawImageSize(const ImgV& v) {
  using P = PixelFormat;
  size_t w = v.w, h = v.h, line = 0, line2 = 0, h2 = 0, planes2 = 0;
  switch (v.pf) {
    case P::GREY8: case P::RGB_IR_RAW_4X4: case P::BAYER8_RGGB: case P::BAYER8_BGGR: case P::BAYER8_GBRG: line = w; break;
    case P::GREY10: case P::GREY12: case P::GREY16: case P::BAYER10_GBRG: line = 2 * w; break;
    case P::RGB8: case P::BGR8: line = 3 * w; break;
    case P::DEPTH32F: case P::RGBA8: line = 4 * w; break;
    case P::RGB10: case P::RGB12: line = 6 * w; break;
    case P::SCALAR64F: line = 8 * w; break;
    case P::RGB32F: line = 12 * w; break;
    case P::RGBA32F: line = 16 * w; break;
    case P::RAW10: case P::RAW10_BAYER_RGGB: case P::RAW10_BAYER_BGGR: case P::GREY10PACKED: line = (w + 3) / 4 * 5; break;
    case P::YUY2: line = (w + 1) / 2 * 4; break;
    case P::YUV_I420_SPLIT: line = w; line2 = (w + 1) / 2; h2 = (h + 1) / 2; planes2 = 2; break;
    case P::YUV_420_NV21: case P::YUV_420_NV12: line = w; line2 = (w + 1) / 2 * 2; h2 = (h + 1) / 2; planes2 = 1; break;
    default: return SIZE_MAX;
  }
  if (v.stride) line = v.stride;
  if (v.stride2) line2 = v.stride2;
  return line * h + planes2 * line2 * h2;
}
namespace {
bool has(const LayoutSpec& l, const string& label) {
  for (auto& f : l) if (f.label == label) return true;
  return false;
}
const char* kW = "image_width"; const char* kH = "image_height"; const char* kS = "image_stride"; const char* kS2 = "image_stride_2";
const char* kPf = "image_pixel_format"; const char* kBpp = "image_bytes_per_pixel"; const char* kCodec = "image_codec_name"; const char* kQual = "image_codec_quality";
const char* kKts = "image_key_frame_timestamp"; const char* kKix = "image_key_frame_index";
const char* kAf = "audio_format"; const char* kAsf = "audio_sample_format"; const char* kAst = "audio_sample_stride"; const char* kAch = "audio_channel_count";
const char* kArt = "audio_sample_rate"; const char* kAct = "audio_sample_count"; const char* kApr = "audio_stereo_pair_count"; const char* kNext = "next_content_block_size";

string rndCodec(Rng& r) {
  static const char* names[] = {"H.264", "h265", "my codec+v2", "a/b", "100%", "\xc3\xa9t\xc3\xa9", "x\"y'z"};
  return names[r.below(7)];
}
PixelFormat rndPf(Rng& r) { return (PixelFormat)(1 + r.below((uint64_t)PixelFormat::COUNT - 1)); }
} // namespace
ImgV rndRaw(Rng& r) {
  ImgV v;
  v.fmt = ImageFormat::RAW;
  v.pf = rndPf(r);
  v.w = 1 + (uint32_t)r.below(12);
  v.h = 1 + (uint32_t)r.below(8);
  if (r.chance(0.25)) v.stride = (uint32_t)(16 * v.w + r.below(8));
  if (r.chance(0.2)) v.stride2 = (uint32_t)(v.w + 1 + r.below(8));
  return v;
}
namespace {
AudV rndPcm(Rng& r) {
  AudV a;
  a.fmt = AudioFormat::PCM;
  a.sf = (AudioSampleFormat)(1 + r.below((uint64_t)AudioSampleFormat::COUNT - 1));
  a.channels = (uint8_t)(1 + r.below(8));
  if (r.chance(0.3)) a.stride = (uint8_t)(sampleSize(a.sf) * a.channels + r.below((uint64_t)a.channels * 3));
  a.rate = (uint32_t)(8000 + r.below(5) * 8000);
  return a;
}
size_t frameSize(const AudV& a) { return a.stride ? a.stride : sampleSize(a.sf) * a.channels; }
void addImgFields(Rng& r, LayoutSpec& l, bool codec) {
  l.push_back(field(kValue, "uint32_t", kW));
  l.push_back(field(kValue, "uint32_t", kH));
  if (r.chance(0.85)) l.push_back(field(kValue, "uint32_t", kPf));
  else l.push_back(field(kValue, r.chance(0.5) ? "uint32_t" : "uint8_t", kBpp));
  if (r.chance(0.4)) l.push_back(field(kValue, "uint32_t", kS));
  if (r.chance(0.4)) l.push_back(field(kValue, "uint32_t", kS2));
  if (codec) l.push_back(field(kString, "string", kCodec));
  if (codec && r.chance(0.5)) l.push_back(field(kValue, "uint32_t", kQual));
}
void addAudFields(Rng& r, LayoutSpec& l, bool format) {
  if (format || r.chance(0.5)) l.push_back(field(kValue, "uint8_t", kAf));
  l.push_back(field(kValue, "uint8_t", kAsf));
  l.push_back(field(kValue, "uint8_t", kAch));
  l.push_back(field(kValue, "uint32_t", kArt));
  if (r.chance(0.5)) l.push_back(field(kValue, "uint8_t", kAst));
  if (r.chance(0.5)) l.push_back(field(kValue, "uint8_t", kApr));
}
// an image which fits what the layout can describe
ImgV imgFor(Rng& r, const LayoutSpec& l) {
  ImgV v = rndRaw(r);
  if (!has(l, kPf)) {
    static const PixelFormat pf[] = {PixelFormat::GREY8, PixelFormat::RGB8, PixelFormat::DEPTH32F, PixelFormat::SCALAR64F};
    v.pf = pf[r.below(4)];
  }
  if (!has(l, kS)) v.stride = 0;
  if (!has(l, kS2)) v.stride2 = 0;
  if (has(l, kCodec)) v.codec = rndCodec(r);
  if (has(l, kQual)) v.quality = r.chance(0.2) ? 255 : (uint32_t)r.below(101);
  return v;
}
AudV audFor(Rng& r, const LayoutSpec& l) {
  AudV a = rndPcm(r);
  if (!has(l, kAst)) a.stride = 0;
  if (has(l, kApr)) a.pairs = (uint8_t)r.below(a.channels / 2 + 1);
  return a;
}
void fill(const LayoutSpec& l, vector<FVal>& v, const ImgV* img, const AudV* aud, const size_t* next, const uint32_t* count) {
  for (size_t i = 0; i < l.size(); i++) {
    auto& n = l[i].label;
    if (img) {
      if (n == kW) v[i] = fval(img->w);
      if (n == kH) v[i] = fval(img->h);
      if (n == kPf) v[i] = fval((uint32_t)img->pf);
      if (n == kBpp) {
        uint32_t b = img->pf == PixelFormat::GREY8 ? 1 : img->pf == PixelFormat::RGB8 ? 3 : img->pf == PixelFormat::DEPTH32F ? 4 : 8;
        v[i] = l[i].elem->size == 1 ? fval((uint8_t)b) : fval(b);
      }
      if (n == kS) v[i] = fval(img->stride);
      if (n == kS2) v[i] = fval(img->stride2);
      if (n == kCodec) v[i] = fstr(img->codec);
      if (n == kQual) v[i] = fval(img->quality);
      if (n == kKts) v[i] = fval(img->keyTs);
      if (n == kKix) v[i] = fval(img->keyIdx);
    }
    if (aud) {
      if (n == kAf) v[i] = fval((uint8_t)aud->fmt);
      if (n == kAsf) v[i] = fval((uint8_t)aud->sf);
      if (n == kAst) v[i] = fval(aud->stride);
      if (n == kAch) v[i] = fval(aud->channels);
      if (n == kArt) v[i] = fval(aud->rate);
      if (n == kApr) v[i] = fval(aud->pairs);
    }
    if (n == kNext && next) v[i] = fval((uint32_t)*next);
    if (n == kAct && count) v[i] = fval(*count);
  }
}
void shuffle(Rng& r, LayoutSpec& l) {
  for (size_t i = l.size(); i > 1; i--) std::swap(l[i - 1], l[r.below(i)]);
}
string bytesOf(Rng& r, size_t n) {
  string s(n, 0);
  for (auto& c : s) c = (char)r.below(r.chance(0.5) ? 256 : 4);
  return s;
}
} // namespace

ContentBlock Block::cb() const {
  switch (type) {
    case ContentType::DATA_LAYOUT: return ContentBlock(ContentType::DATA_LAYOUT);
    case ContentType::IMAGE: {
      ContentBlock c(img.fmt, img.w, img.h);
      if (img.fmt == ImageFormat::RAW && spec == kInFormat) c = ContentBlock(img.pf, img.w, img.h, img.stride, img.stride2);
      else if (img.fmt == ImageFormat::VIDEO && !img.codec.empty()) c = ContentBlock(img.codec, (uint8_t)img.quality);
      else if (img.fmt == ImageFormat::CUSTOM_CODEC && !img.codec.empty()) c = ContentBlock(ImageContentBlockSpec(ImageFormat::CUSTOM_CODEC, img.codec, (uint8_t)img.quality));
      return size != SIZE_MAX ? ContentBlock(c, size) : c;
    }
    case ContentType::AUDIO:
      if (spec == kInFormat) return ContentBlock(aud.fmt, aud.sf, aud.channels, aud.stride, aud.rate, aud.samples);
      return aud.fmt == AudioFormat::UNDEFINED ? ContentBlock(ContentType::AUDIO) : ContentBlock(aud.fmt);
    case ContentType::CUSTOM: return custom.empty() ? CustomContentBlock(size == SIZE_MAX ? ContentBlock::kSizeUnknown : size) : CustomContentBlock(custom, size == SIZE_MAX ? ContentBlock::kSizeUnknown : size);
    default: return ContentBlock(ContentType::EMPTY);
  }
}
size_t Block::formatSize() const {
  switch (type) {
    case ContentType::DATA_LAYOUT: return SIZE_MAX; // the format says nothing of the size of a layout
    case ContentType::IMAGE: return size != SIZE_MAX ? size : img.fmt == ImageFormat::RAW && spec == kInFormat ? rawImageSize(img) : SIZE_MAX;
    case ContentType::AUDIO: return spec == kInFormat && aud.samples ? frameSize(aud) * aud.samples : SIZE_MAX;
    case ContentType::CUSTOM: return size;
    default: return 0;
  }
}

// ---- recording ----
StructFile::StructFile(Ctx& c, StructOpts op) : ctx(c), o(std::move(op)), path(o.path) {
  for (int k = 0; k < o.streams; k++) streams.push_back(std::make_unique<StructStream>(*this, k, ctx.opRng(1000 + (uint64_t)k)));
}
StructFile::~StructFile() = default;

namespace {
Block layoutBlock(Rng& r) {
  Block b;
  b.type = ContentType::DATA_LAYOUT;
  b.layout = rndLayout(r, 5);
  return b;
}
void addSegment(Rng& r, vector<Block>& v, bool cfg, bool cfgCodec, bool rawOnly, bool media) {
  auto add = [&](Block b) { v.push_back(std::move(b)); };
  bool earlierImg = false, earlierAud = false;
  for (auto& b : v) { earlierImg |= b.imgSpec; earlierAud |= b.audSpec; }
  (void)earlierAud;
  switch (r.below(12)) {
    case 0: case 1: add(layoutBlock(r)); break;
    case 2: { // raw image described by the format
      Block b;
      b.type = ContentType::IMAGE;
      b.spec = kInFormat;
      b.img = rndRaw(r);
      add(b);
      break;
    }
    case 3: case 4: { // image described by a layout or by the configuration
      Block b;
      b.type = ContentType::IMAGE;
      b.spec = cfg && !earlierImg && r.chance(0.6) ? kInConfig : kInLayout;
      static const ImageFormat fmts[] = {ImageFormat::RAW, ImageFormat::RAW, ImageFormat::VIDEO, ImageFormat::CUSTOM_CODEC};
      b.img.fmt = fmts[r.below(rawOnly ? 2 : 4)];
      if (media && b.img.fmt == ImageFormat::VIDEO) b.img.fmt = ImageFormat::CUSTOM_CODEC;
      bool layoutCodec = b.spec == kInConfig ? cfgCodec : r.chance(0.6);
      if (b.img.fmt != ImageFormat::RAW && (!layoutCodec || r.chance(0.3))) {
        b.img.codec = rndCodec(r);
        if (r.chance(0.5)) b.img.quality = (uint32_t)r.below(101);
      }
      bool key = b.img.fmt == ImageFormat::VIDEO && r.chance(0.7);
      if (b.spec == kInLayout || key) {
        Block l = layoutBlock(r);
        if (b.spec == kInLayout) {
          l.imgSpec = true;
          addImgFields(r, l.layout, layoutCodec);
        }
        if (key) {
          l.keyFrame = true;
          l.layout.push_back(field(kValue, "double", kKts));
          l.layout.push_back(field(kValue, "uint32_t", kKix));
        }
        shuffle(r, l.layout);
        add(l);
      }
      add(b);
      break;
    }
    case 5: { // encoded image
      if (rawOnly) break;
      Block b;
      b.type = ContentType::IMAGE;
      b.spec = kInFormat;
      static const ImageFormat fmts[] = {ImageFormat::JPG, ImageFormat::PNG, ImageFormat::JXL};
      b.img.fmt = fmts[r.below(3)];
      if (r.chance(0.3)) b.img.w = 5, b.img.h = 7;
      if (r.chance(0.3)) b.size = r.below(60);
      add(b);
      break;
    }
    case 6: { // audio described by the format
      Block b;
      b.type = ContentType::AUDIO;
      b.spec = kInFormat;
      b.aud = rndPcm(r);
      b.aud.samples = r.chance(0.5) ? (uint32_t)(1 + r.below(10)) : 0;
      add(b);
      break;
    }
    case 7: case 8: { // audio described by a layout or by the configuration
      Block b;
      b.type = ContentType::AUDIO;
      b.spec = cfg && r.chance(0.6) ? kInConfig : kInLayout;
      bool opus = b.spec == kInLayout && r.chance(0.3) && !media; // the configuration says PCM
      if (r.chance(0.4)) b.aud.fmt = opus ? AudioFormat::OPUS : AudioFormat::PCM;
      bool count = r.chance(0.5);
      if (b.spec == kInLayout || count) {
        Block l = layoutBlock(r);
        if (b.spec == kInLayout) {
          l.audSpec = true;
          addAudFields(r, l.layout, opus);
          if (opus) l.aud.fmt = AudioFormat::OPUS;
        }
        if (count) {
          l.sampleCount = true;
          l.layout.push_back(field(kValue, "uint32_t", kAct));
        }
        shuffle(r, l.layout);
        add(l);
      }
      add(b);
      break;
    }
    case 9: case 10: {
      Block b;
      b.type = ContentType::CUSTOM;
      if (r.chance(0.5)) b.size = r.below(50);
      if (r.chance(0.4)) b.custom = r.chance(0.5) ? "format_a" : "my.format-2";
      add(b);
      break;
    }
    default: add(Block{}); break;
  }
}
bool needsSize(const vector<Block>& v, size_t i) {
  auto& b = v[i];
  if (b.formatSize() != SIZE_MAX) return false;
  if (b.type == ContentType::IMAGE) return b.img.fmt != ImageFormat::RAW;
  if (b.type == ContentType::CUSTOM) return true;
  if (b.type != ContentType::AUDIO) return false;
  if (b.spec == kInFormat) return b.aud.samples == 0;
  bool counted = i > 0 && v[i - 1].sampleCount;
  bool opus = i > 0 && b.spec == kInLayout && v[i - 1].aud.fmt == AudioFormat::OPUS;
  return opus || !counted;
}
void makeDecidable(Rng& r, vector<Block>& v, bool lossy) {
  for (size_t i = v.size(); i-- > 0;) {
    if (!needsSize(v, i)) continue;
    bool rest = true;
    for (size_t k = i + 1; k < v.size(); k++) rest = rest && v[k].formatSize() != SIZE_MAX;
    if (rest && r.chance(0.7)) continue;
    if (lossy && !rest && r.chance(0.1)) { v[i].lost = true; continue; }
    if (i == 0 || v[i - 1].type != ContentType::DATA_LAYOUT) {
      v.insert(v.begin() + (long)i, layoutBlock(r));
      i++;
    }
    v[i - 1].nextSize = true;
    v[i - 1].layout.push_back(field(kValue, "uint32_t", kNext));
    if (r.chance(0.5)) shuffle(r, v[i - 1].layout);
  }
}
} // namespace

StructStream::StructStream(StructFile& f, int kk, Rng rr)
    : Recordable(kTypes[rr.below(3)], "struct"), file(f), k(kk), r(rr) {
  ts = 1 + 0.001 * k;
  preset = f.o.plain ? vrs::CompressionPreset::None : pickPreset(r);
}
void StructStream::describe() {
  bool cfg = r.chance(0.6), cfgCodec = r.chance(0.5);
  uint32_t nc = cfg ? 1 + (uint32_t)r.below(3) : 1;
  for (uint32_t v = 1; v <= nc; v++) {
    FormatPlan p;
    p.type = Record::Type::CONFIGURATION;
    p.version = v;
    if (cfg || r.chance(0.7)) {
      Block l = layoutBlock(r);
      if (cfg) {
        l.imgSpec = l.audSpec = true;
        addImgFields(r, l.layout, cfgCodec);
        addAudFields(r, l.layout, false);
        shuffle(r, l.layout);
      }
      p.blocks.push_back(l);
      if (r.chance(0.3)) p.blocks.insert(p.blocks.begin(), layoutBlock(r));
      if (r.chance(0.3)) p.blocks.push_back(layoutBlock(r));
    }
    configs.push_back(p);
  }
  for (uint32_t v = 1, nd = 1 + (uint32_t)r.below(3); v <= nd; v++) {
    FormatPlan p;
    p.version = v + (uint32_t)r.below(2) * 10;
    for (size_t n = 1 + r.below(4); p.blocks.size() < n;) addSegment(r, p.blocks, cfg, cfgCodec, file.o.rawOnly, file.o.media);
    makeDecidable(r, p.blocks, file.o.lossy);
    datas.push_back(p);
  }
  auto declare = [&](vector<FormatPlan>& plans, vector<vector<BuiltLayout>>& layouts) {
    for (auto& p : plans) {
      layouts.emplace_back();
      RecordFormat f;
      vector<const DataLayout*> ls;
      bool lost = false;
      for (auto& b : p.blocks) lost |= b.lost;
      for (auto& b : p.blocks) {
        layouts.back().emplace_back();
        if (b.type == ContentType::DATA_LAYOUT) layouts.back().back() = build(b.layout);
        ls.push_back(layouts.back().back().dl.get());
        if (b.type == ContentType::DATA_LAYOUT && !lost && r.chance(0.5)) f + layouts.back().back().dl->getContentBlock();
        else f + b.cb();
      }
      if (p.blocks.empty()) f = RecordFormat(ContentType::EMPTY);
      RecordFormat again(f.asString());
      if (again != f) fail("record format changed by its description: \"%s\" became \"%s\"", f.asString().c_str(), again.asString().c_str());
      if (!addRecordFormat(p.type, p.version, f, ls)) fail("record format refused: %s", f.asString().c_str());
    }
  };
  declare(configs, configLayouts);
  declare(datas, dataLayouts);
  addRecordFormat(Record::Type::STATE, 1, RecordFormat(ContentType::EMPTY), {});
  setCompression(preset);
}
namespace {
class Parts : public DataSource {
 public:
  explicit Parts(const string& s) : DataSource(s.size()), s_(s) {}
  void copyTo(uint8_t* buffer) const override { memcpy(buffer, s_.data(), s_.size()); }
 private:
  const string& s_;
};
} // namespace
const Record* StructStream::make(size_t fi, double t) {
  bool isCfg = fi < configs.size();
  FormatPlan& p = isCfg ? configs[fi] : datas[fi - configs.size()];
  auto& layouts = isCfg ? configLayouts[fi] : dataLayouts[fi - configs.size()];
  XRec x;
  x.sid = getStreamId();
  x.type = p.type;
  x.ts = t;
  x.version = p.version;
  x.config = lastConfig;
  x.blocks.resize(p.blocks.size());
  for (size_t i = 0; i < p.blocks.size(); i++) {
    Block& b = p.blocks[i];
    XBlock& xb = x.blocks[i];
    xb.b = &b;
    xb.idx = i;
    if (b.type == ContentType::IMAGE) {
      if (b.spec == kInFormat) xb.img = b.img;
      else {
        xb.img = b.spec == kInLayout ? imgFor(r, p.blocks[i - 1].layout) : ImgV{};
        if (b.spec == kInConfig) {
          x.usesConfig = true;
          for (auto& c : recs[(size_t)lastConfig].blocks) if (c.b->imgSpec) xb.img = c.img;
        }
        xb.img.fmt = b.img.fmt;
        if (b.img.fmt == ImageFormat::RAW) { xb.img.codec.clear(); xb.img.quality = 255; }
        else {
          if (xb.img.codec.empty()) xb.img.codec = b.img.codec;
          if (xb.img.quality > 100) xb.img.quality = b.img.quality;
        }
      }
      if (i > 0 && p.blocks[i - 1].keyFrame) {
        xb.img.key = true;
        xb.img.keyTs = (double)r.range(-1000, 100000) / 8;
        xb.img.keyIdx = (uint32_t)r.below(1000);
      }
      size_t n = xb.img.fmt == ImageFormat::RAW ? rawImageSize(xb.img) : b.size != SIZE_MAX ? b.size : r.below(60);
      xb.bytes = bytesOf(r, n);
    } else if (b.type == ContentType::AUDIO) {
      if (b.spec == kInFormat) xb.aud = b.aud;
      else if (b.spec == kInLayout) {
        xb.aud = audFor(r, p.blocks[i - 1].layout);
        if (p.blocks[i - 1].aud.fmt == AudioFormat::OPUS) xb.aud.fmt = AudioFormat::OPUS;
      } else {
        x.usesConfig = true;
        for (auto& c : recs[(size_t)lastConfig].blocks) if (c.b->audSpec) xb.aud = c.aud;
      }
      bool counted = i > 0 && p.blocks[i - 1].sampleCount;
      if (xb.aud.fmt == AudioFormat::OPUS) {
        xb.aud.samples = counted ? (uint32_t)(1 + r.below(500)) : 0;
        xb.bytes = bytesOf(r, r.below(60));
      } else {
        if (!xb.aud.samples) xb.aud.samples = (uint32_t)(!counted && r.chance(0.1) && !file.o.media ? 0 : 1 + r.below(10));
        xb.bytes = bytesOf(r, frameSize(xb.aud) * xb.aud.samples);
      }
    } else if (b.type == ContentType::CUSTOM) {
      xb.bytes = bytesOf(r, b.size != SIZE_MAX ? b.size : r.below(70));
    }
  }
  vector<DataLayout*> ls;
  vector<string*> others;
  bool stock = true;
  string all;
  for (size_t i = 0; i < p.blocks.size(); i++) {
    Block& b = p.blocks[i];
    XBlock& xb = x.blocks[i];
    if (b.type == ContentType::DATA_LAYOUT) {
      xb.vals = rndValues(r, b.layout);
      if (isCfg && b.imgSpec) xb.img = imgFor(r, b.layout);
      if (isCfg && b.audSpec) xb.aud = audFor(r, b.layout);
      const XBlock* nx = i + 1 < x.blocks.size() ? &x.blocks[i + 1] : nullptr;
      const ImgV* img = isCfg ? (b.imgSpec ? &xb.img : nullptr) : nx && nx->b->type == ContentType::IMAGE ? &nx->img : nullptr;
      ImgV tmp;
      if (img && !isCfg) { // the layout only has what it can say
        tmp = *img;
        img = &tmp;
      }
      const AudV* aud = isCfg ? (b.audSpec ? &xb.aud : nullptr) : nx && nx->b->type == ContentType::AUDIO ? &nx->aud : nullptr;
      size_t next = nx ? nx->bytes.size() : 0;
      uint32_t count = aud ? aud->samples : 0;
      fill(b.layout, xb.vals, img, aud, &next, &count);
      setValues(layouts[i], b.layout, xb.vals);
      ls.push_back(layouts[i].dl.get());
      if (!others.empty()) stock = false;
      xb.bytes = rawBytes(*layouts[i].dl);
    } else if (b.type != ContentType::EMPTY) {
      others.push_back(&xb.bytes);
    }
    all += xb.bytes;
  }
  stock = stock && ls.size() >= 1 && ls.size() <= 2 && others.size() <= 3 && r.chance(0.8);
  const Record* rec = nullptr;
  auto ch = [&](size_t i) { return DataSourceChunk(others[i]->data(), others[i]->size()); };
  if (!stock) rec = createRecord(t, p.type, p.version, Parts(all));
  else if (ls.size() == 1) {
    if (others.empty()) rec = createRecord(t, p.type, p.version, DataSource(*ls[0]));
    else if (others.size() == 1) rec = createRecord(t, p.type, p.version, DataSource(*ls[0], ch(0)));
    else if (others.size() == 2) rec = createRecord(t, p.type, p.version, DataSource(*ls[0], ch(0), ch(1)));
    else rec = createRecord(t, p.type, p.version, DataSource(*ls[0], ch(0), ch(1), ch(2)));
  } else {
    if (others.empty()) rec = createRecord(t, p.type, p.version, DataSource(*ls[0], *ls[1]));
    else if (others.size() == 1) rec = createRecord(t, p.type, p.version, DataSource(*ls[0], *ls[1], ch(0)));
    else if (others.size() == 2) rec = createRecord(t, p.type, p.version, DataSource(*ls[0], *ls[1], ch(0), ch(1)));
    else rec = createRecord(t, p.type, p.version, DataSource(*ls[0], *ls[1], ch(0), ch(1), ch(2)));
  }
  if (isCfg) lastConfig = (int)recs.size();
  recs.push_back(std::move(x));
  return rec;
}
const Record* StructStream::createConfigurationRecord() { ts += 0.01; return make(r.below(configs.size()), ts); }
const Record* StructStream::createStateRecord() {
  ts += 0.01;
  XRec x;
  x.sid = getStreamId();
  x.type = Record::Type::STATE;
  x.ts = ts;
  x.config = lastConfig;
  recs.push_back(x);
  return createRecord(ts, Record::Type::STATE, 1);
}
void StructStream::makeData() {
  for (int n = 0; n < file.o.maxRecords; n++) {
    if (!file.ctx.op((uint32_t)(100 + k * 40 + n))) continue;
    Rng g = file.ctx.opRng((uint64_t)(100 + k * 40 + n));
    std::swap(r, g);
    ts += 0.01;
    if (r.chance(0.2)) make(r.below(configs.size()), ts);
    else make(configs.size() + r.below(datas.size()), ts);
    if (r.chance(0.2)) sim::sleepNs((int64_t)r.below(1000000));
    std::swap(r, g);
  }
}
void StructFile::record() {
  Rng& r = ctx.rng;
  {
    vector<std::thread> th;
    for (auto& s : streams) th.emplace_back([&s] { s->describe(); });
    for (auto& t : th) t.join();
  }
  RecordFileWriter wr;
  for (auto& s : streams) wr.addRecordable(s.get());
  bool async = r.chance(0.5);
  if (r.chance(0.3)) wr.setCompressionThreadPoolSize(2);
  if (async) {
    if (int e = wr.createFileAsync(path)) fail("cannot record: %d", e);
  }
  {
    vector<std::thread> th;
    if (!async) for (auto& s : streams) s->createConfigurationRecord();
    for (auto& s : streams) th.emplace_back([&s] { s->makeData(); });
    if (async && r.chance(0.5)) { sim::sleepNs(1000000); wr.writeRecordsAsync(1.05); }
    for (auto& t : th) t.join();
  }
  int e = async ? wr.waitForFileClosed() : wr.writeToFile(path);
  if (e) fail("cannot record: %d", e);
  for (auto& s : streams) total += s->recs.size();
}
const XRec* StructFile::find(StreamId id, Record::Type t, double ts) const {
  for (auto& s : streams)
    if (s->getStreamId() == id)
      for (auto& x : s->recs)
        if (x.type == t && x.ts == ts && !x.gone) return &x;
  return nullptr;
}

// ---- reading ----
struct StructReader::Player : RecordFormatStreamPlayer {
  StructReader& o;
  Rng& r;
  const XRec* x = nullptr;
  size_t next = 0;
  bool stopped = false;
  set<StreamId> cfgUnknown_;
  bool cfgUnknown() const { return cfgUnknown_.count(x->sid) != 0; }
  int readErr = 0;
  map<const Block*, BuiltLayout> others;
  map<const Block*, LayoutSpec> otherSpecs;
  Player(StructReader& oo) : o(oo), r(oo.r) {}
  string describe() const {
    string s;
    for (auto& b : x->blocks) s += (s.empty() ? "" : "+") + b.b->cb().asString() + "(" + std::to_string(b.bytes.size()) + (b.b->nextSize ? ",next" : "") + (b.b->sampleCount ? ",count" : "") + (b.b->audSpec ? ",aud" : "") + (b.b->imgSpec ? ",img" : "") + (b.b->spec == kInConfig ? ",config" : "") + ")";
    return s;
  }
  const XBlock& expect(size_t idx, const char* what) {
    if (stopped) fail("block delivered after the player said stop: %s block %zu", what, idx);
    while (next < x->blocks.size() && x->blocks[next].b->type == ContentType::EMPTY) next++;
    if (next >= x->blocks.size()) fail("extra block delivered: %s block %zu", what, idx);
    if (idx != next) fail("blocks out of order: %s block %zu instead of %zu", what, idx, next);
    return x->blocks[next++];
  }
  bool go() {
    if (r.chance(0.04)) stopped = true;
    return !stopped;
  }
  bool readBytes(const CurrentRecord& rec, const string& want, const char* what) {
    string got(want.size(), '\xEE');
    if (!got.empty()) {
      int e;
      if (r.chance(0.3) && got.size() > 1) { // in two calls
        size_t n = 1 + r.below(got.size() - 1);
        e = rec.reader->read((void*)got.data(), n);
        if (e == 0) e = rec.reader->read((void*)&got[n], got.size() - n);
      } else {
        e = rec.reader->read((void*)got.data(), got.size());
      }
      if (e) {
        readErr = e;
        stopped = true;
        return false;
      }
    }
    if (got != want) fail("content differs: %s of %zu bytes", what, want.size());
    return go();
  }
  bool onDataLayoutRead(const CurrentRecord&, size_t idx, DataLayout& dl) override {
    const XBlock& b = expect(idx, "layout");
    if (b.b->type != ContentType::DATA_LAYOUT) fail("block of another type: layout instead of %s", vrs::toString(b.b->type).c_str());
    int how = (int)r.below(3);
    checkValues(dl, b.b->layout, b.vals, how, "when read");
    if (!dl.isVarDataIndexValid()) fail("layout read back with an invalid index: block %zu", idx);
    if (b.b->imgSpec && r.chance(0.5)) {
      auto& s = getExpectedLayout<dc::ImageSpec>(dl, idx);
      for (size_t i = 0; i < b.b->layout.size(); i++)
        if (b.b->layout[i].label == kW && fval(s.width.get()) != b.vals[i]) fail("known field has another value: width %u", s.width.get());
    }
    if (r.chance(0.6)) {
      if (!others.count(b.b) || r.chance(0.2)) {
        otherSpecs[b.b] = otherVersion(r, b.b->layout);
        others[b.b] = build(otherSpecs[b.b]);
      }
      checkMapped(others[b.b], otherSpecs[b.b], dl, b.b->layout, b.vals, how, "through another version of the layout");
    }
    if (r.chance(0.3)) {
      dl.stageCurrentValues();
      if (rawBytes(dl) != b.bytes) fail("layout read and recorded again differs: block %zu", idx);
      checkValues(dl, b.b->layout, b.vals, how, "after being recorded again");
    }
    if (r.chance(0.2)) checkPrints(dl);
    return go();
  }
  bool onImageRead(const CurrentRecord& rec, size_t idx, const ContentBlock& cb) override {
    const XBlock& b = expect(idx, "image");
    if (b.b->type != ContentType::IMAGE) fail("block of another type: image instead of %s", vrs::toString(b.b->type).c_str());
    if (b.b->lost) fail("block of unknown size delivered: image of %zu bytes", cb.getBlockSize());
    auto& s = cb.image();
    ImgV g;
    g.fmt = s.getImageFormat();
    g.pf = s.getPixelFormat();
    g.w = s.getWidth();
    g.h = s.getHeight();
    g.stride = s.getRawStride();
    g.stride2 = s.getRawStride2();
    g.codec = s.getCodecName();
    g.quality = s.getCodecQuality();
    if (s.getKeyFrameTimestamp() != ImageContentBlockSpec::kInvalidTimestamp) { g.key = true; g.keyTs = s.getKeyFrameTimestamp(); g.keyIdx = s.getKeyFrameIndex(); }
    if (g.str() == b.img.str()) {
      if (cb.getBlockSize() != b.bytes.size()) fail("size of an image differs: %zu bytes instead of %zu, %s", cb.getBlockSize(), b.bytes.size(), g.str().c_str());
      return readBytes(rec, b.bytes, "image");
    }
    if (cfgUnknown() && b.b->spec == kInConfig && otherConfig(b, &g, nullptr)) return !(stopped = true);
    fail("image described differently: %s instead of %s%s", g.str().c_str(), b.img.str().c_str(), b.b->spec == kInConfig ? ", as the configuration says" : "");
  }
  bool onAudioRead(const CurrentRecord& rec, size_t idx, const ContentBlock& cb) override {
    const XBlock& b = expect(idx, "audio");
    if (b.b->type != ContentType::AUDIO) fail("block of another type: audio instead of %s", vrs::toString(b.b->type).c_str());
    if (b.b->lost) fail("block of unknown size delivered: audio of %zu bytes", cb.getBlockSize());
    auto& s = cb.audio();
    AudV g, wv = b.aud;
    g.fmt = s.getAudioFormat();
    g.sf = s.getSampleFormat();
    g.channels = s.getChannelCount();
    g.stride = s.getSampleFrameStride();
    g.rate = s.getSampleRate();
    g.samples = s.getSampleCount();
    g.pairs = s.getStereoPairCount();
    wv.stride = (uint8_t)frameSize(wv);
    if (g.str() == wv.str()) {
      if (cb.getBlockSize() != b.bytes.size()) fail("size of an audio block differs: %zu bytes instead of %zu, %s", cb.getBlockSize(), b.bytes.size(), g.str().c_str());
      return readBytes(rec, b.bytes, "audio");
    }
    if (cfgUnknown() && b.b->spec == kInConfig && otherConfig(b, nullptr, &g)) return !(stopped = true);
    fail("audio described differently: %s instead of %s%s", g.str().c_str(), wv.str().c_str(), b.b->spec == kInConfig ? ", as the configuration says" : "");
  }
  bool onCustomBlockRead(const CurrentRecord& rec, size_t idx, const ContentBlock& cb) override {
    const XBlock& b = expect(idx, "custom");
    if (b.b->type != ContentType::CUSTOM) fail("block of another type: custom instead of %s", vrs::toString(b.b->type).c_str());
    if (b.b->lost) fail("block of unknown size delivered: custom of %zu bytes", cb.getBlockSize());
    if (cb.getCustomContentBlockFormat() != b.b->custom) fail("custom block described differently: \"%s\" instead of \"%s\"", cb.getCustomContentBlockFormat().c_str(), b.b->custom.c_str());
    if (cb.getBlockSize() != b.bytes.size()) fail("size of a custom block differs: %zu bytes instead of %zu", cb.getBlockSize(), b.bytes.size());
    return readBytes(rec, b.bytes, "custom block");
  }
  bool onUnsupportedBlock(const CurrentRecord& rec, size_t idx, const ContentBlock& cb) override {
    const XBlock& b = expect(idx, "unsupported");
    if (!b.b->lost && !(cfgUnknown() && b.b->spec == kInConfig)) fail("block not recognized: %s block %zu of %zu bytes, %s; record: %s", vrs::toString(b.b->type).c_str(), idx, b.bytes.size(), cb.asString().c_str(), describe().c_str());
    RecordFormatStreamPlayer::onUnsupportedBlock(rec, idx, cb);
    return !(stopped = true); // what follows a block nobody could size isn't claimed
  }
  // does a configuration of the stream say this
  bool otherConfig(const XBlock& b, const ImgV* img, const AudV* aud) {
    for (auto& s : o.f.streams) {
      if (s->getStreamId() != x->sid) continue;
      for (auto& c : s->recs) {
        if (c.type != Record::Type::CONFIGURATION) continue;
        for (auto& cb : c.blocks) {
          if (img && cb.b->imgSpec) {
            ImgV v = cb.img;
            v.fmt = b.b->img.fmt;
            if (v.fmt == ImageFormat::RAW) { v.codec.clear(); v.quality = 255; }
            else {
              if (v.codec.empty()) v.codec = b.b->img.codec;
              if (v.quality > 100) v.quality = b.b->img.quality;
            }
            v.key = b.img.key; v.keyTs = b.img.keyTs; v.keyIdx = b.img.keyIdx;
            if (v.str() == img->str()) return true;
          }
          if (aud && cb.b->audSpec) {
            AudV v = cb.aud, g = *aud;
            v.stride = (uint8_t)frameSize(v);
            v.samples = g.samples = 0;
            if (v.str() == g.str()) return true;
          }
        }
      }
    }
    return false;
  }
};
StructReader::StructReader(const StructFile& ff, Rng rr) : f(ff), r(rr) {}
StructReader::~StructReader() { rd.reset(); }
void StructReader::open() {
  rd = std::make_unique<RecordFileReader>();
  if (int e = rd->openFile(f.path)) fail("cannot open the recording: %d", e);
  player = std::make_unique<Player>(*this);
  for (auto id : rd->getStreams()) rd->setStreamPlayer(id, player.get());
  if (rd->getRecordCount() != f.total) fail("record count differs: %u instead of %zu", rd->getRecordCount(), f.total);
  // the formats read are those declared
  for (auto& s : f.streams) {
    RecordFormatMap m;
    rd->getRecordFormats(f.inFile(s->getStreamId()), m);
    for (auto* plans : {&s->configs, &s->datas})
      for (auto& p : *plans) {
        auto it = m.find({p.type, p.version});
        if (it == m.end()) fail("record format lost: version %u", p.version);
        size_t n = p.blocks.size();
        while (n > 0 && p.blocks[n - 1].type == ContentType::EMPTY) n--;
        if (it->second.getUsedBlocksCount() != n) fail("record format differs: %zu blocks instead of %zu", it->second.getUsedBlocksCount(), n);
        for (size_t i = 0; i < n; i++) {
          auto c = p.blocks[i].cb();
          auto& g = it->second.getContentBlock(i);
          if (c.getContentType() != ContentType::DATA_LAYOUT ? c != g : g.getContentType() != c.getContentType()) fail("record format differs: block %s instead of %s", g.asString().c_str(), c.asString().c_str());
        }
      }
  }
}
void StructReader::readOne(size_t i) {
  auto& ri = rd->getIndex()[i];
  const XRec* x = f.find(f.own(ri.streamId), ri.recordType, ri.timestamp);
  if (!x) fail("unknown record: %s", ri.streamId.getNumericName().c_str());
  bool isCfg = x->type == Record::Type::CONFIGURATION;
  for (int tries = 0;; tries++) {
    player->x = x;
    player->next = 0;
    player->stopped = false;
    player->readErr = 0;
    uint64_t before = sim::faultsInjected();
    int e = rd->readRecord(ri);
    bool faulted = sim::faultsInjected() != before;
    if (e && !faulted) fail("status: reading a record returned %d with no fault", e);
    if (player->readErr && !e) fail("read error not reported: the player got %d", player->readErr);
    if (e) {
      probe("failed read");
      if (isCfg) player->cfgUnknown_.insert(x->sid);
      if (r.chance(0.5) && tries < 5) continue;
      return;
    }
    if (isCfg && player->stopped) player->cfgUnknown_.insert(x->sid);
    else if (isCfg) player->cfgUnknown_.erase(x->sid); // maybe before the description of the images and audio
    if (!player->stopped) {
      size_t n = player->next;
      while (n < x->blocks.size() && x->blocks[n].b->type == ContentType::EMPTY) n++;
      if (n != x->blocks.size()) fail("blocks not delivered: %zu of %zu", n, x->blocks.size());
    }
    return;
  }
}
void StructReader::readAll() {
  for (size_t i = 0; i < rd->getIndex().size(); i++) readOne(i);
}
void StructReader::readRandom(int n) {
  auto& ix = rd->getIndex();
  if (ix.empty()) return;
  map<StreamId, int> last;
  for (int k = 0; k < n; k++) {
    size_t i = r.below(ix.size());
    const XRec* x = f.find(f.own(ix[i].streamId), ix[i].recordType, ix[i].timestamp);
    if (!x) fail("unknown record: %s", ix[i].streamId.getNumericName().c_str());
    const StructStream* s = nullptr;
    for (auto& t : f.streams) if (t->getStreamId() == x->sid) s = t.get();
    auto find = [&](const XRec& c) {
      for (size_t j = 0; j < ix.size(); j++)
        if (f.own(ix[j].streamId) == c.sid && ix[j].recordType == c.type && ix[j].timestamp == c.ts) return j;
      fail("record missing: configuration");
    };
    if (x->usesConfig && (!last.count(x->sid) || last[x->sid] != x->config)) {
      readOne(find(s->recs[(size_t)x->config]));
      last[x->sid] = x->config;
    }
    readOne(i);
    if (x->type == Record::Type::CONFIGURATION) last[x->sid] = (int)(x - s->recs.data());
  }
}

// ---- layouts ----
void checkPrints(const DataLayout& l) {
  std::ostringstream o;
  l.printLayout(o, "  ");
  l.printLayoutCompact(o, "  ");
  o << l.asJson(JsonFormatProfile::ExternalPretty) << l.asJson(JsonFormatProfile::ExternalCompact) << l.asJson(JsonFormatProfile::Public) << l.getListOfPiecesSpec();
  if (o.str().empty() && l.getDeclaredFixedDataPiecesCount()) fail("nothing printed: %zu fields", l.getDeclaredFixedDataPiecesCount());
}
void layoutLife(Rng& g) {
  LayoutSpec s = rndLayout(g, 7);
  BuiltLayout b = build(s);
  os::getTerminalWidth((uint32_t)(30 + g.below(150)));
  // ranges
  vector<std::pair<string, string>> range(s.size());
  for (size_t i = 0; i < s.size(); i++)
    if (g.chance(0.3)) {
      auto mn = s[i].elem->rnd(g, true), mx = s[i].elem->rnd(g, true);
      if (s[i].elem->setRange(b.pieces[i], s[i], mn, mx)) range[i] = {mn, mx};
    }
  auto checkRange = [&](DataLayout& l, const char* where) {
    for (size_t i = 0; i < s.size(); i++) {
      if (range[i].first.empty()) continue;
      string mn, mx;
      if (!s[i].elem->getRange(s[i].elem->find(l, s[i]), s[i], mn, mx)) fail("range lost %s: %s", where, s[i].str().c_str());
      if (mn != range[i].first || mx != range[i].second) fail("range differs %s: %s", where, s[i].str().c_str());
    }
  };
  checkRange(*b.dl, "as declared");
  // described and made again
  string js = b.dl->asJson();
  auto m = DataLayout::makeFromJson(js);
  if (!m->isSame(*b.dl) || !b.dl->isSame(*m)) fail("layout made from its description differs: %s", js.c_str());
  if (m->getFixedDataSizeNeeded() != b.dl->getFixedDataSizeNeeded()) fail("layout made from its description has another size: %zu instead of %zu", m->getFixedDataSizeNeeded(), b.dl->getFixedDataSizeNeeded());
  if (m->asJson() != js) fail("description of a layout changes: %s then %s", js.c_str(), m->asJson().c_str());
  checkRange(*m, "in the layout made from its description");
  for (size_t i = 0; i < s.size(); i++) {
    auto* p = s[i].elem->find(*m, s[i]);
    FVal d;
    s[i].elem->getDefault(p, s[i], d);
    if (s[i].hasDef && d != s[i].def) fail("default value differs in the layout made from its description: %s is %s instead of %s", s[i].str().c_str(), d.str().c_str(), s[i].def.str().c_str());
    if (p->isRequired() != s[i].required) fail("required flag differs in the layout made from its description: %s", s[i].str().c_str());
    for (auto& t : s[i].tags) {
      string v;
      if (!p->getTag(t.first, v) || v != t.second) fail("tag differs in the layout made from its description: %s", s[i].str().c_str());
    }
  }
  if (!s.empty() && g.chance(0.5)) {
    LayoutSpec t = s;
    auto& f = t[g.below(t.size())];
    if (g.chance(0.5)) f.label += "'";
    else f.required = !f.required;
    BuiltLayout c = build(t);
    if (c.dl->isSame(*b.dl)) fail("different layouts said to be the same: %s", js.c_str());
  }
  // recorded, then read in the other layout
  vector<FVal> v = rndValues(g, s);
  auto load = [&](DataLayout& l) {
    string raw = rawBytes(*b.dl);
    l.getFixedData().assign(raw.begin(), raw.begin() + (long)l.getFixedDataSizeNeeded());
    l.getVarData().assign(raw.begin() + (long)l.getFixedDataSizeNeeded(), raw.end());
    l.getVarData().shrink_to_fit();
  };
  setValues(b, s, v);
  load(*m);
  if (!m->isVarDataIndexValid()) fail("layout read back with an invalid index: %s", js.c_str());
  int how = (int)g.below(3);
  checkValues(*b.dl, s, v, how, "in the layout recorded");
  checkValues(*m, s, v, how, "in the layout read");
  LayoutSpec os = otherVersion(g, s);
  BuiltLayout other = build(os);
  checkMapped(other, os, *m, s, v, how, "through another version of the layout");
  if (g.chance(0.5)) checkPrints(g.chance(0.5) ? (const DataLayout&)*m : *other.dl);
  // copied in a layout of that version
  {
    BuiltLayout c = build(os);
    c.dl->initDataPiecesToDefaultValue();
    size_t n = c.dl->copyDataPieceValuesFromMappedLayout(*other.dl), want = 0;
    vector<FVal> cv;
    for (auto& f : os) {
      FVal x = missingValue(f);
      if (f.kind == kArray) x.elems.resize(f.count, string(f.elem->size, 0));
      for (size_t k = 0; k < s.size(); k++) if (s[k].matches(f)) { x = v[k]; want++; }
      cv.push_back(x);
    }
    if (n != want) fail("number of values copied: %zu instead of %zu", n, want);
    rawBytes(*c.dl);
    checkValues(*c.dl, os, cv, how, "copied from a mapped layout");
  }
  // cloned, with more fields
  {
    bool mapped = g.chance(0.4);
    BuiltLayout same;
    DataLayout* from = m.get();
    if (mapped) {
      LayoutSpec o2 = s;
      if (g.chance(0.5)) shuffle(g, o2);
      same = build(o2);
      same.dl->mapLayout(*m);
      from = same.dl.get();
    }
    LayoutSpec cs = s;
    vector<FVal> cv = v;
    ManualDataLayout c(*from);
    for (size_t k = 0, n = g.below(3); k < n; k++) {
      FieldSpec f = rndField(g, "clone field " + std::to_string(k));
      f.hasDef = false;
      c.add(f.elem->make(f));
      cs.push_back(f);
      FVal x = missingValue(f);
      if (f.kind == kArray) x.elems.resize(f.count, string(f.elem->size, 0));
      cv.push_back(x);
    }
    c.endLayout();
    if (!c.copyClonedDataPieceValues(*from)) fail("copy of a cloned layout refused: %s", js.c_str());
    rawBytes(c);
    checkValues(c, cs, cv, how, cs.size() > s.size() ? "in a clone with more fields" : "in a clone");
  }
  // some values replaced through the mapped layout
  {
    vector<FVal> nv = v;
    m->stageCurrentValues();
    for (size_t i = 0; i < os.size(); i++) {
      if (!g.chance(0.4)) continue;
      FVal x = rndValue(g, os[i]);
      bool known = false;
      for (size_t k = 0; k < s.size(); k++) if (s[k].matches(os[i])) { nv[k] = x; known = true; }
      if (os[i].elem->patch(other.pieces[i], os[i], x) != known) fail("patching a field: %s %s", os[i].str().c_str(), known ? "refused" : "accepted though it does not exist");
    }
    rawBytes(*m);
    checkValues(*m, s, nv, how, "after values were replaced");
    v = nv;
  }
  if (g.chance(0.3)) checkPrints(*b.dl);
}
} // namespace w

// ---- damaged data ----
#include "alloc.h"
namespace w {
namespace {
void damageBytes(Rng& g, string& s) {
  if (s.empty()) return;
  for (size_t k = 0, n = 1 + g.below(g.chance(0.3) ? 12 : 3); k < n; k++) {
    size_t p = g.below(s.size());
    switch (g.below(4)) {
      case 0: s[p] ^= (char)(1 << g.below(8)); sim::recordFault(sim::fBitFlip); break;
      case 1: s[p] = (char)g.next(); sim::recordFault(sim::fGarbage); break;
      default: {
        size_t w = g.chance(0.8) ? 4 : 8;
        if (s.size() < w) break;
        p = g.below(s.size() - w + 1);
        if (g.chance(0.7)) p -= p % 4;
        uint64_t v = 0;
        memcpy(&v, &s[p], w);
        switch (g.below(9)) {
          case 0: v = 0; break;
          case 1: v = ~0ull; break;
          case 2: v = s.size(); break;
          case 3: v = 0x7fffffff; break;
          case 4: v = 0x80000000; break;
          case 5: v += 1; break;
          case 6: v -= 1; break;
          case 7: v = ~0ull - g.below(20); break;
          default: v = g.below(2 * s.size() + 8); break;
        }
        memcpy(&s[p], &v, w);
        sim::recordFault(sim::fGarbage);
      }
    }
  }
}
// everything which can be asked to a layout
void useLayout(Rng& g, DataLayout& l, const LayoutSpec& s) {
  auto getAll = [&](BuiltLayout* b, DataLayout& d, const LayoutSpec& sp) {
    for (size_t i = 0; i < sp.size(); i++) {
      DataPiece* p = b ? b->pieces[i] : sp[i].elem->find(d, sp[i]);
      if (!p) continue;
      FVal v;
      sp[i].elem->get(p, sp[i], v, (int)g.below(3));
      p->isAvailable();
    }
  };
  l.isVarDataIndexValid();
  getAll(nullptr, l, s);
  LayoutSpec os = otherVersion(g, s);
  BuiltLayout o = build(os);
  o.dl->mapLayout(l);
  getAll(&o, *o.dl, os);
  if (g.chance(0.5)) checkPrints(g.chance(0.5) ? l : *o.dl);
  BuiltLayout c = build(os);
  c.dl->copyDataPieceValuesFromMappedLayout(*o.dl);
  rawBytes(*c.dl);
  getAll(&c, *c.dl, os);
  if (g.chance(0.5)) {
    ManualDataLayout clone(l);
    clone.endLayout();
    clone.copyClonedDataPieceValues(l);
    rawBytes(clone);
    getAll(nullptr, clone, s);
  }
  if (g.chance(0.5)) {
    l.stageCurrentValues();
    for (size_t i = 0; i < os.size(); i++)
      if (g.chance(0.2)) os[i].elem->patch(o.pieces[i], os[i], rndValue(g, os[i]));
    rawBytes(l);
    getAll(nullptr, l, s);
  }
}
struct LaxPlayer : RecordFormatStreamPlayer {
  const StructFile& f;
  Rng& g;
  vector<const LayoutSpec*> specs;
  LaxPlayer(const StructFile& ff, Rng& gg) : f(ff), g(gg) {
    for (auto& s : f.streams)
      for (auto* plans : {&s->configs, &s->datas})
        for (auto& p : *plans)
          for (auto& b : p.blocks) if (b.type == ContentType::DATA_LAYOUT) specs.push_back(&b.layout);
  }
  bool onDataLayoutRead(const CurrentRecord&, size_t, DataLayout& dl) override {
    size_t n = dl.getDeclaredFixedDataPiecesCount() + dl.getDeclaredVarDataPiecesCount();
    const LayoutSpec* best = nullptr;
    for (auto* s : specs) if (s->size() == n && (!best || g.chance(0.3))) best = s;
    if (!best && !specs.empty()) best = specs[g.below(specs.size())];
    if (best) useLayout(g, dl, *best);
    return !g.chance(0.02);
  }
  bool take(const CurrentRecord& rec, const ContentBlock& cb) {
    cb.asString();
    size_t n = std::min<size_t>(cb.getBlockSize(), 5000);
    if (cb.getBlockSize() == ContentBlock::kSizeUnknown) n = 10;
    string s(n, 0);
    if (n) rec.reader->read((void*)s.data(), n);
    return !g.chance(0.02);
  }
  bool onImageRead(const CurrentRecord& rec, size_t, const ContentBlock& cb) override {
    cb.image().getRawImageSize();
    return take(rec, cb);
  }
  bool onAudioRead(const CurrentRecord& rec, size_t, const ContentBlock& cb) override { return take(rec, cb); }
  bool onCustomBlockRead(const CurrentRecord& rec, size_t, const ContentBlock& cb) override { return take(rec, cb); }
};
} // namespace
void damageString(Rng& g, string& s, size_t from) {
  string tail = s.substr(from);
  damageBytes(g, tail);
  s.replace(from, string::npos, tail);
}
void damagedLayout(Rng& g) {
  LayoutSpec s = rndLayout(g, 7);
  BuiltLayout b = build(s);
  setValues(b, s, rndValues(g, s));
  string raw = rawBytes(*b.dl);
  string js = b.dl->asJson();
  AllocTrack track(raw.size());
  for (int k = 0; k < 6; k++) {
    auto l = DataLayout::makeFromJson(js);
    string bad = raw;
    damageBytes(g, bad);
    size_t fixed = l->getFixedDataSizeNeeded();
    l->getFixedData().assign(bad.begin(), bad.begin() + (long)fixed);
    size_t var = l->getVarDataSizeFromIndex();
    if (var > bad.size() - fixed) { probe("damaged index refused"); continue; }
    l->getVarData().assign(bad.begin() + (long)fixed, bad.begin() + (long)(fixed + var));
    l->getVarData().shrink_to_fit();
    useLayout(g, *l, s);
    probe("damaged layout used");
  }
}
void readDamagedStruct(const StructFile& f, Rng& g, size_t fileSize) {
  AllocTrack track(fileSize);
  RecordFileReader rd;
  if (rd.openFile(f.path)) { probe("damaged structured file rejected"); return; }
  LaxPlayer p(f, g);
  for (auto id : rd.getStreams()) {
    rd.setStreamPlayer(id, &p);
    rd.mightContainImages(id);
    rd.mightContainAudio(id);
    if (g.chance(0.3)) {
      RecordFormatMap m;
      rd.getRecordFormats(id, m);
    }
  }
  auto& ix = rd.getIndex();
  if (g.chance(0.6)) {
    for (size_t i = 0; i < ix.size() && i < 300; i++) rd.readRecord(ix[i]);
  } else {
    for (int i = 0; i < 30 && !ix.empty(); i++) rd.readRecord(ix[g.below(ix.size())]);
  }
  probe("damaged structured file read");
}
} // namespace w
