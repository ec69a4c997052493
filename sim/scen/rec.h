// The recording workload: streams, producers, a controller and a writer, under any configuration.
#pragma once
#include "common.h"

namespace w {
struct RecCfg {
  enum Mode { kSync, kManual, kAuto, kMixed } mode = kManual;
  int streams = 2, producers = 1, opsPerProducer = 10, controlOps = 4;
  int sessions = 1;
  int pool = 0;
  bool split = false;
  int chunkMB = 0;
  bool chunkHandler = false;
  bool prealloc = false;
  int preallocMax = 60;
  bool sortRecords = true;
  bool track = false;
  bool direct = false;       // some records use DirectWriteRecordData
  bool late = false;         // a stream is added while recording
  bool closeByDestructor = false;
  bool concurrentClose = false; // producers may still be running when the file is closed
  bool async = false;        // asynchronous disk engine
  string engineOpts;
  size_t big = 3000;         // largest ordinary payload
  double pHuge = 0;          // chance of a several 100 KB payload
  int tsMode = 0;            // 0 increasing, 1 ties, 2 out of order, 3 all equal
  bool autoPurge = false;
  bool purge = false;
  string path = "/sim/tmp/rec.vrs";
  map<string, string> tags;  // more file tags
};
string uri(const RecCfg& c, const string& path);
RecCfg pickCfg(Ctx& ctx);
string cfgStr(const RecCfg& c);

// recordables live in one arena, in an order chosen by the seed, so that containers keyed by
// address are explored and repeatable
class StreamArena {
 public:
  StreamArena(Rng& r, Model& m, int n);
  ~StreamArena();
  TestStream* add(); // next stream
  vector<TestStream*> all;
  std::function<void(TestStream*)> onAdd;

 private:
  Model& model;
  vector<int> slots;
  size_t used = 0, arena = 0;
  vector<RecordableTypeId> types;
  vector<string> flavors;
  vector<size_t> cfgSizes;
  vector<vrs::CompressionPreset> presets;
  char* mem;
};

struct Session {
  string path;
  int createStatus = -1, closeStatus = -1;
  bool opened = false;
  vector<int> writeStatuses;
  uint64_t createBegin = 0, createEnd = 0, closeBegin = 0, closeEnd = ~0ull;
  map<string, string> tags;
};
class ChunkLog : public vrs::NewChunkHandler {
 public:
  struct Ev { string path; size_t index; bool last; string content; uint64_t step; };
  explicit ChunkLog(std::shared_ptr<vector<Ev>> l) : log(std::move(l)) {}
  void newChunk(const string& path, size_t index, bool isLast) override;
  std::shared_ptr<vector<Ev>> log;
};
class Writer : public vrs::RecordFileWriter {
 public:
  void noIndex(bool b) { skipFinalizeIndexRecords_ = b; }
};

class RecRun {
 public:
  RecRun(Ctx& ctx, RecCfg cfg);
  ~RecRun();
  void run();              // all sessions, then a final flush session when needed
  void flushRest();        // writes what is left in memory to one more file
  // checks for runs without faults
  void checkAll();
  void checkQueue(const char* where);
  Ctx& ctx;
  RecCfg cfg;
  Model model;
  unique_ptr<StreamArena> arena;
  unique_ptr<Writer> writer;
  vector<Session> sessions;
  vector<std::shared_ptr<vector<ChunkLog::Ev>>> chunkLogs;
  std::function<void(int)> beforeClose; // controller hook
  std::function<void(int)> afterCreate;
  std::function<void(int)> afterClose;
  std::function<void(TestStream*)> afterAdd; // a late stream is known to the writer
  std::atomic<double> clock{1};
  bool faulty = false;   // errors are possible: statuses are not required to be 0
  uint64_t maxQueueSeen = 0;

 private:
  void producer(int p);
  void control(int session, int n, uint32_t opBase);
  double nextTs(Rng& r);
  void checkSession(size_t i, set<string>& all);
  std::atomic<int> seq_{0};
};
} // namespace w
