// C15: copies which edit structured records while copying them (RecordFilterCopier and the zero filter).
#include "faultpick.h"
#include "structrec.h"
#include <vrs/utils/FilterCopy.h>
#include <vrs/utils/FilteredFileReader.h>
#include <vrs/utils/cli/MakeZeroFilterCopier.h>
using namespace w;
using namespace vrs;
using sim::fail;
using sim::Ctx;
using sim::logf;
using sim::nontrivial;
using sim::probe;
using sim::Rng;
using utils::CopyOptions;

namespace {
bool media(ContentType t) { return t == ContentType::IMAGE || t == ContentType::AUDIO; }
struct Edit {
  bool skipped = false, verbatim = false;
  set<size_t> seen;               // blocks given to the filter
  map<size_t, vector<FVal>> vals; // layouts changed
  string flip;                    // blocks inverted
};
struct Plan { // what is asked of the copy
  StructFile& sf;
  double shift = 0;
  double verbatim = 0, skip = 0, edit = 0;
  set<StreamId> blind; // their configuration records are copied without being looked at
  map<const XRec*, Edit> edits;
  set<StreamId> firstSkipped;
  string trouble; // only matters if the copy is said to be good
  void wrong(const string& s) { if (trouble.empty()) trouble = s; }
};
class Editor : public utils::RecordFilterCopier {
 public:
  Editor(RecordFileReader& rd, RecordFileWriter& wr, StreamId id, const CopyOptions& o, Plan& pl, Rng rr)
      : RecordFilterCopier(rd, wr, id, o), p(pl), r(rr) {}
  Plan& p;
  Rng r;
  const XRec* x = nullptr;
  Edit* e = nullptr;
  bool shouldCopyVerbatim(const CurrentRecord& rec) override {
    x = p.sf.find(rec.streamId, rec.recordType, rec.timestamp);
    if (!x) fail("unknown record given to the filter: %s", rec.streamId.getNumericName().c_str());
    e = &p.edits[x];
    bool cfg = x->type == Record::Type::CONFIGURATION;
    return e->verbatim = cfg ? p.blind.count(x->sid) != 0 : r.chance(p.verbatim);
  }
  void doHeaderEdits(CurrentRecord& h) override { h.timestamp += p.shift; }
  const XBlock* block(const CurrentRecord& rec, size_t idx, ContentType t) {
    if (!x || rec.timestamp != x->ts || idx >= x->blocks.size() || x->blocks[idx].b->type != t) {
      p.wrong("filter called for another block: block " + std::to_string(idx));
      return nullptr;
    }
    if (!e->seen.insert(idx).second) p.wrong("filter called twice for a block: block " + std::to_string(idx));
    if (x->type == Record::Type::DATA && r.chance(p.skip)) { skipRecord(); e->skipped = true; }
    return &x->blocks[idx];
  }
  void doDataLayoutEdits(const CurrentRecord& rec, size_t idx, DataLayout& dl) override {
    const XBlock* b = block(rec, idx, ContentType::DATA_LAYOUT);
    if (!b) return;
    DataLayout* l = &dl;
    if (sim::faultsInjected() == 0) checkValues(*l, b->b->layout, b->vals, (int)r.below(3), "in the filter");
    if (!r.chance(p.edit)) return;
    LayoutSpec os = otherVersion(r, b->b->layout);
    BuiltLayout o = build(os);
    o.dl->mapLayout(dl);
    auto& spec = b->b->layout;
    vector<FVal> v = b->vals;
    for (size_t i = 0; i < os.size(); i++) {
      if (os[i].label.rfind("f/", 0) != 0 && os[i].label.rfind("shared/", 0) != 0) continue; // says what follows
      if (!r.chance(0.4)) continue;
      FVal n = rndValue(r, os[i]);
      bool known = false;
      for (size_t k = 0; k < spec.size(); k++) if (spec[k].matches(os[i])) { v[k] = n; known = true; }
      if (os[i].elem->patch(o.pieces[i], os[i], n) != known) p.wrong("patching a field in the filter: " + os[i].str());
    }
    e->vals[idx] = v;
  }
  void flip(const CurrentRecord& rec, size_t idx, const ContentBlock& cb, vector<uint8_t>& d, ContentType t) {
    const XBlock* b = block(rec, idx, t);
    if (!b) return;
    if (string((const char*)d.data(), d.size()) != b->bytes) p.wrong("filter given another content: block " + std::to_string(idx));
    if (cb.getBlockSize() != b->bytes.size()) p.wrong("filter given another size: block " + std::to_string(idx));
    if (!r.chance(p.edit)) return;
    e->flip += (char)idx;
    for (auto& c : d) c = (uint8_t)~c;
  }
  void filterImage(const CurrentRecord& rec, size_t i, const ContentBlock& cb, vector<uint8_t>& d) override { flip(rec, i, cb, d, ContentType::IMAGE); }
  void filterAudio(const CurrentRecord& rec, size_t i, const ContentBlock& cb, vector<uint8_t>& d) override { flip(rec, i, cb, d, ContentType::AUDIO); }
};
// removing the images and audio leaves the sizes given by layouts without object
bool removable(const StructFile& sf) {
  for (auto& s : sf.streams)
    for (auto* plans : {&s->configs, &s->datas})
      for (auto& p : *plans)
        for (size_t i = 0; i + 1 < p.blocks.size(); i++)
          if (p.blocks[i].nextSize && media(p.blocks[i + 1].type))
            for (size_t k = i + 1; k < p.blocks.size(); k++)
              if (p.blocks[k].type == ContentType::CUSTOM) return false;
  return true;
}
void removeMedia(StructFile& sf) {
  for (auto& s : sf.streams) {
    map<const Block*, const Block*> to;
    vector<vector<Block>> keep; // records point to the old ones until the end
    vector<FormatPlan*> all;
    for (auto* plans : {&s->configs, &s->datas})
      for (auto& p : *plans) {
        vector<Block> nb;
        vector<const Block*> from;
        for (auto& b : p.blocks) if (!media(b.type)) { nb.push_back(b); from.push_back(&b); }
        keep.push_back(std::move(nb));
        for (size_t i = 0; i < from.size(); i++) to[from[i]] = &keep.back()[i];
        all.push_back(&p);
      }
    for (auto& x : s->recs) {
      vector<XBlock> nb;
      for (auto& b : x.blocks) if (to.count(b.b)) { b.b = to[b.b]; b.idx = nb.size(); nb.push_back(b); }
      x.blocks = std::move(nb);
    }
    for (size_t i = 0; i < all.size(); i++) all[i]->blocks.swap(keep[i]); // the elements do not move
  }
}
} // namespace

SCENARIO("C15", record_filter, 1) {
  Rng& r = ctx.rng;
  StructOpts so;
  so.streams = 1 + (int)r.below(3);
  so.maxRecords = 8;
  so.lossy = false;
  ctx.begin();
  {
    StructFile sf(ctx, so);
    {
      unique_ptr<TemporaryRecordableInstanceIdsResetter> reset;
      sf.record();
    }
    enum { kEditor, kZero, kRemove } what = (decltype(what))(r.chance(0.6) ? kEditor : r.chance(0.6) || !removable(sf) ? kZero : kRemove);
    Plan plan{sf};
    plan.shift = r.chance(0.3) ? (double)r.range(-64, 64) / 4 : 0;
    if (r.chance(0.5)) plan.verbatim = r.chance(0.2) ? 1 : r.unit();
    if (r.chance(0.3)) plan.skip = 0.2;
    if (r.chance(0.7)) plan.edit = r.unit();
    for (auto& s : sf.streams) if (r.chance(0.15)) plan.blind.insert(s->getStreamId());
    for (auto& s : sf.streams) // the shift must keep records apart
      for (size_t i = 1; i < s->recs.size(); i++) if (s->recs[i].ts + plan.shift == s->recs[i - 1].ts + plan.shift) plan.shift = 0;
    Rng g = ctx.opRng(4000);
    string dst = "/sim/out/copy.vrs";
    sim::fs::mkdirs("/sim/out");
    CopyOptions co(false);
    co.compressionPoolSize = (unsigned)g.below(3);
    static const CompressionPreset presets[] = {CompressionPreset::None, CompressionPreset::Lz4Fast, CompressionPreset::ZstdFaster};
    co.setCompressionPreset(presets[g.below(3)]);
    co.preallocateIndex = g.chance(0.6);
    if (what == kRemove) co.miscParams[utils::kRemoveContentBlocks] = "true";
    map<StreamId, StreamId> ids; // new -> old
    int st;
    uint64_t before = sim::faultsInjected();
    {
      utils::FilteredFileReader f(sf.path);
      if (int e = f.openFile(utils::RecordFilterParams())) fail("unreadable: opening the source returned %d", e);
      map<RecordableTypeId, uint16_t> next;
      for (auto id : f.reader.getStreams()) ids[StreamId(id.getTypeId(), ++next[id.getTypeId()])] = id;
      bool faults = r.chance(0.4);
      if (faults) {
        if (r.chance(0.7)) {
          pickReadFaults(ctx);
          sim::faultCfg().pathFilter = [dst](const string& p) { return p.rfind(dst, 0) != 0; };
        } else {
          pickWriteFaults(ctx, false, false);
          sim::faultCfg().pathFilter = [dst](const string& p) { return p.rfind(dst, 0) == 0; };
        }
      }
      logf("copy: %d shift %g verbatim %g skip %g edit %g blind %zu", (int)what, plan.shift, plan.verbatim, plan.skip, plan.edit, plan.blind.size());
      sim::armFaults(faults);
      uint32_t n = 0;
      st = utils::filterCopy(f, dst, co, [&](RecordFileReader& rd, RecordFileWriter& wr, StreamId id, const CopyOptions& o) -> unique_ptr<StreamPlayer> {
        if (what != kEditor) return utils::makeZeroFilterCopier(rd, wr, id, o);
        return std::make_unique<Editor>(rd, wr, id, o, plan, ctx.opRng(4001 + n++));
      });
      sim::armFaults(false);
    }
    bool faulted = sim::faultsInjected() != before;
    if (st) {
      if (!faulted) fail("status: copying returned %d (%s)", st, errorCodeToMessage(st).c_str());
      probe("filtered copy reported a failure");
    } else {
      if (faulted) probe("filtered copy succeeded in spite of faults");
      if (!plan.trouble.empty()) fail("%s", plan.trouble.c_str());
      // what the copy should hold
      size_t total = 0, edits = 0;
      for (auto& s : sf.streams) {
        bool blind = plan.blind.count(s->getStreamId()) != 0;
        for (auto& x : s->recs) {
          if (what == kEditor) {
            x.ts += plan.shift;
            auto it = plan.edits.find(&x);
            size_t size = 0;
            for (auto& b : x.blocks) size += b.bytes.size();
            if (it == plan.edits.end()) {
              if (size) fail("record not given to the filter: %zu bytes", size);
            } else {
              auto& e = it->second;
              x.gone = e.skipped;
              for (auto& v : e.vals) {
                XBlock& b = x.blocks[v.first];
                b.vals = v.second;
                BuiltLayout bl = build(b.b->layout);
                setValues(bl, b.b->layout, b.vals);
                b.bytes = rawBytes(*bl.dl);
                edits++;
              }
              for (char c : e.flip) { for (auto& d : x.blocks[(size_t)c].bytes) d = (char)~d; edits++; }
              if (!e.verbatim && !blind)
                for (size_t i = 0; i < x.blocks.size(); i++) {
                  auto t = x.blocks[i].b->type;
                  if ((media(t) || t == ContentType::DATA_LAYOUT) && !e.seen.count(i)) fail("block not given to the filter: block %zu", i);
                }
            }
          } else {
            for (auto& b : x.blocks) if (media(b.b->type)) { b.bytes.assign(b.bytes.size(), 0); edits++; }
          }
          total += !x.gone;
        }
      }
      if (what == kRemove) removeMedia(sf);
      sf.total = total;
      sf.path = dst;
      sf.ids = ids;
      StructReader rd(sf, ctx.opRng(5000));
      rd.open();
      rd.readAll();
      if (what == kRemove)
        for (auto& m : ids) if (rd.rd->getTags(m.first).user.count("image-and-audio-content-blocks-removed") == 0) fail("tag missing in the copy: %s", m.first.getNumericName().c_str());
      if (edits > 2) nontrivial();
      probe(what == kEditor ? "edited copy read" : what == kZero ? "zeroed copy read" : "copy without images and audio read");
    }
  }
  if (sim::fs::openHandles()) fail("files left open: %d", sim::fs::openHandles());
  ctx.end();
}
