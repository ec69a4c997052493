// Finished recordings for the workloads which read: any layout, with a reference view.
#pragma once
#include "rec.h"

namespace w {
struct MkOpts {
  int maxOps = 25;
  bool cut = true;        // the file may be cut in chunks, at any byte
  bool noIndex = true;    // the index may be missing
  bool tagsRecords = true; // streams may be added late
  size_t big = 3000;
  string path = "/sim/tmp/rec.vrs";
  map<string, string> tags; // file tags
};
struct Recorded {
  unique_ptr<RecRun> rr; // the model of what was recorded
  string path;
  vector<string> paths;  // chunks
  FileView ref;          // as read without faults
  bool indexed = true;
  bool split = false;
  vector<uint64_t> sizes; // record sizes on disk, in the order of ref
};
// records, closes, maybe cuts in chunks; verifies the result against the model
Recorded makeRecording(Ctx& ctx, const MkOpts& o = {});
// replace the chunks of a file: bytes cut at random
vector<string> cutFile(Rng& r, const string& path, const string& bytes, size_t minFirst = 0);
// the same content, in index order, with the same tags
void sameView(const FileView& got, const FileView& want, const char* where, bool offsets = true, bool strictTags = true);
} // namespace w
