// C16: decoding all the records of structured recordings.
#include "faultpick.h"
#include "structrec.h"
#include <vrs/utils/FilteredFileReader.h>
#include <vrs/utils/Validation.h>
using namespace w;
using namespace vrs;
using sim::fail;
using sim::nontrivial;
using sim::probe;
using sim::Rng;

SCENARIO("C16", decode_check, 0.5) {
  Rng& r = ctx.rng;
  StructOpts so;
  so.streams = 1 + (int)r.below(3);
  so.maxRecords = 8;
  so.lossy = false;
  so.rawOnly = r.chance(0.6);
  bool faults = r.chance(0.5), cut = r.chance(0.15);
  ctx.begin();
  {
    StructFile sf(ctx, so);
    sf.record();
    size_t images = 0, encoded = 0;
    set<StreamId> streams;
    for (auto& s : sf.streams) streams.insert(s->getStreamId());
    if (streams.size() > 1 && r.chance(0.3)) streams.erase(r.chance(0.5) ? streams.begin() : std::prev(streams.end()));
    size_t total = 0, media = 0;
    for (auto& s : sf.streams) {
      if (!streams.count(s->getStreamId())) continue;
      for (auto& x : s->recs) {
        total++;
        bool bad = false; for (auto& b : x.blocks) sim::logf("%s %s %zu %s", toString(x.type).c_str(), b.b->cb().asString().c_str(), b.bytes.size(), b.img.str().c_str());
        size_t n = 0;
        for (auto& b : x.blocks)
          if (b.b->type == ContentType::IMAGE && !bad) {
            if (b.img.fmt == ImageFormat::RAW) n++;
            else bad = true;
          }
        images += n;
        encoded += bad; // random bytes
        media += n;
      }
    }
    utils::FilteredFileReader f(sf.path);
    utils::RecordFilterParams params;
    bool all = streams.size() == sf.streams.size();
    if (!all) for (auto id : streams) params.includeStream(id.getNumericName());
    if (int e = f.openFile(params)) fail("unreadable: opening the recording returned %d", e);
    if (cut) { // the end of the file is lost after it was opened
      string c = sim::fs::content(sf.path);
      c.resize(c.size() / 2 + r.below(c.size() / 2));
      sim::fs::setContent(sf.path, c);
    }
    if (faults) pickReadFaults(ctx);
    for (int k = 0; k < 2; k++) {
      utils::CopyOptions o(false);
      o.jsonOutput = r.chance(0.5);
      uint64_t before = sim::faultsInjected();
      sim::armFaults(faults);
      string v = utils::checkRecords(f, o, utils::CheckType::Decode);
      sim::armFaults(false);
      bool faulted = sim::faultsInjected() != before;
      bool good = o.jsonOutput ? v.find("\"good_file\":true") != string::npos : v.find("no errors") != string::npos;
      bool bad = o.jsonOutput ? v.find("\"good_file\":false") != string::npos : v.find("Failure!") != string::npos;
      if (good == bad) fail("no verdict: \"%s\"", v.c_str());
      if (good && encoded) fail("verdict good, though %zu records can't be decoded: \"%s\"", encoded, v.c_str());
      if (bad && !encoded && !faulted && !cut) fail("verdict bad for a good file: \"%s\"", v.c_str());
      if (good) {
        string want = o.jsonOutput ? "\"record_count\":" + std::to_string(total) : "Decoded " + std::to_string(total) + " records, " + std::to_string(images) + " images";
        size_t at = v.find(want);
        if (at == string::npos || isdigit(v[at + want.size()])) fail("verdict counts differ: \"%s\" instead of \"%s\" %d", v.c_str(), want.c_str(), k);
        if (o.jsonOutput && v.find("decoded_count") != string::npos) fail("verdict good, though records are missing: \"%s\"", v.c_str());
        if (faulted) probe("decoded in spite of faults");
        probe("decoded");
      } else {
        probe(encoded ? "cannot be decoded" : "decoding failed");
      }
      if (total > 4 && media) nontrivial();
    }
  }
  ctx.end();
}
