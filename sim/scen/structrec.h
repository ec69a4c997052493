// Recordings of structured streams and readers which know what to expect.
#pragma once
#include "structured.h"
#include <vrs/RecordFormat.h>
#include <vrs/RecordFormatStreamPlayer.h>

namespace w {
struct ImgV { // an image, fully described
  vrs::ImageFormat fmt = vrs::ImageFormat::UNDEFINED;
  vrs::PixelFormat pf = vrs::PixelFormat::UNDEFINED;
  uint32_t w = 0, h = 0, stride = 0, stride2 = 0;
  string codec;
  uint32_t quality = 255;
  bool key = false;
  double keyTs = 0;
  uint32_t keyIdx = 0;
  string str() const;
};
struct AudV {
  vrs::AudioFormat fmt = vrs::AudioFormat::UNDEFINED;
  vrs::AudioSampleFormat sf = vrs::AudioSampleFormat::UNDEFINED;
  uint8_t channels = 0, stride = 0, pairs = 0;
  uint32_t rate = 0, samples = 0;
  string str() const;
};
size_t rawImageSize(const ImgV& v); // what the documentation of the pixel formats says
size_t sampleSize(vrs::AudioSampleFormat f);
ImgV rndRaw(Rng& r);

enum Where { kNowhere, kInFormat, kInLayout, kInConfig };
struct Block {
  vrs::ContentType type = vrs::ContentType::EMPTY;
  LayoutSpec layout;
  bool nextSize = false;    // the layout has the size of the next block
  bool imgSpec = false, audSpec = false; // the layout has the description of an image / of audio
  bool keyFrame = false, sampleCount = false;
  Where spec = kNowhere;    // what describes this image or audio
  ImgV img;                 // what the format says
  AudV aud;
  size_t size = SIZE_MAX;   // size given by the format
  string custom;
  bool lost = false;        // nothing tells the size
  bool hasVar() const { for (auto& f : layout) if (f.isVar()) return true; return false; }
  vrs::ContentBlock cb() const;
  size_t formatSize() const; // SIZE_MAX when the format alone does not say
};
struct FormatPlan {
  Record::Type type = Record::Type::DATA;
  uint32_t version = 1;
  vector<Block> blocks;
};
// what a record reads back as
struct XBlock {
  const Block* b = nullptr;
  size_t idx = 0;
  vector<FVal> vals; // layouts
  string bytes;
  ImgV img;          // complete, except for what a configuration record says
  AudV aud;
};
struct XRec {
  StreamId sid;
  Record::Type type;
  double ts = 0;
  uint32_t version = 1;
  vector<XBlock> blocks;
  int config = -1;   // index of the configuration which describes it
  bool usesConfig = false;
  bool gone = false; // left out of a copy
};
struct StructOpts {
  int streams = 2;
  int maxRecords = 10;
  string path = "/sim/tmp/struct.vrs";
  bool plain = false; // no compression
  bool rawOnly = false; // images are raw
  bool media = false; // what extraction handles: no video, no OPUS, some samples
  bool lossy = true;  // some blocks cannot be read (documented)
};
class StructStream;
class StructFile {
 public:
  StructFile(Ctx& ctx, StructOpts o);
  ~StructFile();
  void record();
  Ctx& ctx;
  StructOpts o;
  string path;
  vector<unique_ptr<StructStream>> streams;
  size_t total = 0;
  map<StreamId, StreamId> ids; // in a copy: new ids to the original ones
  StreamId own(StreamId id) const { auto it = ids.find(id); return it == ids.end() ? id : it->second; }
  StreamId inFile(StreamId id) const {
    for (auto& m : ids) if (m.second == id) return m.first;
    return id;
  }
  const XRec* find(StreamId id, Record::Type t, double ts) const;
};
class StructStream : public vrs::Recordable {
 public:
  StructStream(StructFile& f, int k, Rng r);
  void describe();                 // builds the layouts, declares the formats
  const Record* createConfigurationRecord() override;
  const Record* createStateRecord() override;
  void makeData();
  const Record* make(size_t fmt, double ts);
  StructFile& file;
  int k;
  Rng r;
  vector<FormatPlan> configs, datas;
  vector<vector<BuiltLayout>> configLayouts, dataLayouts;
  vector<XRec> recs;
  int lastConfig = -1;
  double ts;
  vrs::CompressionPreset preset;
};
class StructReader {
 public:
  StructReader(const StructFile& f, Rng r);
  ~StructReader();
  void open();
  void readAll();
  void readRandom(int n);
  void readOne(size_t i);
  const StructFile& f;
  Rng r;
  bool faulty = false;
  struct Player;
  unique_ptr<Player> player;
  unique_ptr<vrs::RecordFileReader> rd;
};
void layoutLife(Rng& g);
void checkPrints(const vrs::DataLayout& l); // only memory safety
} // namespace w
namespace w {
void damageString(Rng& g, string& s, size_t from);
void damagedLayout(Rng& g);               // values read from damaged data: any, but memory stays safe
void readDamagedStruct(const StructFile& f, Rng& g, size_t fileSize);
} // namespace w
