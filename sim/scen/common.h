// Shared pieces of the workloads: recording model, test streams, reading back, an independent file parser.
#pragma once
#include "../core/scen.h"
#include <atomic>
#include <cstring>
#include <functional>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include <vrs/DataSource.h>
#include <vrs/DiskFile.h>
#include <vrs/ErrorCode.h>
#include <vrs/FileHandler.h>
#include <vrs/IndexRecord.h>
#include <vrs/MultiRecordFileReader.h>
#include <vrs/NewChunkHandler.h>
#include <vrs/Record.h>
#include <vrs/RecordFileReader.h>
#include <vrs/RecordFileWriter.h>
#include <vrs/Recordable.h>
#include <vrs/StreamPlayer.h>

namespace w {
using sim::Ctx;
using sim::Rng;
using std::map;
using std::set;
using std::string;
using std::unique_ptr;
using std::vector;
using vrs::Record;
using vrs::RecordableTypeId;
using vrs::StreamId;

inline uint64_t hashStr(const string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}
// unique content for record `id`
string makePayload(uint64_t id, size_t size, int style);
enum { kCompressible = 0, kRandomBytes = 1, kMixed = 2 };
size_t pickSize(Rng& r, size_t big);

// what a record must read back as
struct MRec {
  StreamId sid;
  Record::Type type = Record::Type::DATA;
  double ts = 0;
  uint32_t ver = 0;
  string data;
  uint64_t seq = 0;     // creation order within the model
  uint64_t begin = 0, end = 0; // simulator steps around the creation call
  bool dropped = false; // purged by the model
  int session = -1;
  string key() const {
    string k;
    uint64_t v[4];
    v[0] = ((uint64_t)(uint32_t)(int32_t)sid.getTypeId() << 32) | ((uint64_t)sid.getInstanceId() << 8) | (uint8_t)type;
    memcpy(&v[1], &ts, 8);
    v[2] = ver;
    v[3] = data.size();
    k.assign((const char*)v, sizeof v);
    uint64_t h = hashStr(data);
    k.append((const char*)&h, 8);
    return k;
  }
  string str() const;
};

// A stream whose records are all noted in a shared model.
class TestStream;
struct Model {
  std::mutex mx;        // simulated mutex: only held around the model's own update
  vector<MRec> recs;
  uint64_t nextId = 1;
  set<StreamId> napped; // streams which were inactive for a while: their records may be discarded
  double configTs = 0;  // time used for config/state records
  std::function<double()> clock;
  std::function<void(const MRec&)> onAdd;
  MRec& add(MRec&& r) {
    if (onAdd) onAdd(r);
    recs.emplace_back(std::move(r));
    recs.back().seq = recs.size();
    return recs.back();
  }
};
class TestStream : public vrs::Recordable {
 public:
  TestStream(Model& m, RecordableTypeId type, const string& flavor, size_t cfgSize = 30);
  const Record* createConfigurationRecord() override;
  const Record* createStateRecord() override;
  // returns index in the model
  size_t make(double ts, Record::Type type, uint32_t ver, const string& data);
  size_t makeDirect(double ts, Record::Type type, uint32_t ver, const string& head, const string& tail);
  using vrs::Recordable::getVRSTags;
  Model& model;
  size_t cfgSize;
  int configs = 0, states = 0;
};

vrs::CompressionPreset pickPreset(Rng& r);

// ---- reading back ----
struct Got {
  StreamId sid;
  Record::Type type;
  double ts;
  uint32_t ver;
  string data;
  int64_t offset = 0;
  int err = 0;
  bool seen = false;
  MRec asRec() const { MRec m; m.sid = sid; m.type = type; m.ts = ts; m.ver = ver; m.data = data; return m; }
};
class Collector : public vrs::StreamPlayer {
 public:
  bool processRecordHeader(const vrs::CurrentRecord& r, vrs::DataReference& ref) override;
  void processRecord(const vrs::CurrentRecord& r, uint32_t readSize) override;
  vector<char> buf;
  Got last;
  int headers = 0, records = 0;
  uint32_t readSize = 0;
};
struct FileView {
  int openError = 0;
  bool hasIndex = false;
  vector<Got> recs; // in index order
  map<string, string> tags;
  map<StreamId, vrs::StreamTags> streamTags;
  set<StreamId> streams;
  int readErrors = 0;
};
FileView readFile(const string& path, bool autoFix = false);
FileView readSpec(const vrs::FileSpec& spec, bool autoFix = false);
void readInto(vrs::RecordFileReader& r, FileView& v);

struct CheckOpts {
  const char* tag = "lost";     // violation class prefix
  bool allowMissing = false;    // some records may be absent
  bool allowTagsRecords = true;
};
// every "must" record exactly once, every "may" record at most once, nothing else
void checkContents(const FileView& v, const vector<const MRec*>& must, const vector<const MRec*>& may, const char* where);
void checkIndexOrder(const FileView& v, const char* where);
void checkCreationOrder(const FileView& v, const vector<MRec>& model, const char* where);

// ---- independent parser (knows the file format, uses none of the project's reading code) ----
struct RawRec {
  uint64_t off = 0;
  uint32_t size = 0, prev = 0;
  int32_t typeId = 0;
  uint32_t ver = 0;
  double ts = 0;
  uint16_t inst = 0;
  uint8_t type = 0, comp = 0;
  uint32_t usize = 0;
  string payload;  // decompressed
  bool bad = false;
};
struct RawFile {
  bool headerOk = false;
  uint32_t headerSize = 0, recHeaderSize = 0, version = 0;
  int64_t indexOff = 0, descOff = 0, firstUser = 0;
  vector<RawRec> user;     // user records in file order
  uint64_t endOfUser = 0;  // offset after the last complete user record
  bool hasIndexRec = false;
  RawRec index;
  vector<vrs::IndexRecord::DiskRecordInfo> entries; // only parsed for complete indexes
  bool indexOk = false;
};
// user records are parsed from firstUser (or userStart when >= 0) to the end, index records skipped
RawFile rawParse(const string& bytes, int64_t userStart = -1);
string concatChunks(const vector<string>& paths);
vector<string> chunkPaths(const string& base); // base, base_1, base_2, ...
// structure of a successfully closed recording, from the bytes alone
void checkRawStructure(const RawFile& f, const char* where);

string strTs(double v);
extern const RecordableTypeId kTypes[6];
} // namespace w
