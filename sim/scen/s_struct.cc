// C21: structured records: layouts, record formats and content blocks read back as they were recorded.
#include "faultpick.h"
#include "structrec.h"
#include <algorithm>
using namespace w;
using namespace vrs;
using sim::fail;
using sim::Ctx;
using sim::Rng;
using sim::nontrivial;
using sim::probe;

// several threads describe and record structured streams, several threads read them back
SCENARIO("C21", struct_roundtrip, 6) {
  Rng& r = ctx.rng;
  StructOpts o;
  o.streams = 1 + (int)r.below(3);
  o.maxRecords = 12;
  int nReaders = 1 + (int)r.below(3);
  bool random = r.chance(0.3);
  ctx.begin();
  {
    StructFile sf(ctx, o);
    sf.record();
    vector<std::thread> th;
    for (int t = 0; t < nReaders; t++)
      th.emplace_back([&, t] {
        Rng g = ctx.opRng(3000 + (uint64_t)t);
        StructReader rd(sf, g);
        rd.open();
        if (random) rd.readRandom(2 + (int)g.below(20));
        else rd.readAll();
      });
    for (auto& t : th) t.join();
    if (sf.total > 1 && (nReaders > 1 || o.streams > 1)) nontrivial();
  }
  ctx.end();
}

// read errors are reported, and nothing is misread because of them, then or later
SCENARIO("C21", struct_faults, 3) {
  Rng& r = ctx.rng;
  StructOpts o;
  o.streams = 1 + (int)r.below(2);
  o.maxRecords = 10;
  ctx.begin();
  {
    StructFile sf(ctx, o);
    sf.record();
    Rng g = ctx.opRng(3000);
    StructReader rd(sf, g);
    rd.faulty = true;
    rd.open();
    pickReadFaults(ctx);
    rd.readAll();
    sim::armFaults(false);
    if (sf.total > 1 && sim::faultsInjected()) nontrivial();
  }
  ctx.end();
}

// layouts alone: made, described, made again from their description, mapped, copied, printed, by several threads
SCENARIO("C21", layouts, 4) {
  Rng& r = ctx.rng;
  int nt = 1 + (int)r.below(3);
  ctx.begin();
  {
    vector<std::thread> th;
    for (int t = 0; t < nt; t++)
      th.emplace_back([&, t] {
        for (uint32_t k = 0; k < 4; k++) {
          if (!ctx.op(10 + (uint32_t)t * 10 + k)) continue;
          Rng g = ctx.opRng(10 + (uint64_t)t * 10 + k);
          layoutLife(g);
        }
      });
    for (auto& t : th) t.join();
    if (nt > 1) nontrivial();
  }
  ctx.end();
}

// damaged structured files and layouts: memory stays safe whatever they hold
SCENARIO("C12", damaged_struct, 2) {
  Rng& r = ctx.rng;
  StructOpts o;
  o.streams = 1 + (int)r.below(2);
  o.maxRecords = 10;
  o.plain = r.chance(0.7);
  int rounds = ctx.thorough ? 12 : 6;
  ctx.begin();
  {
    StructFile sf(ctx, o);
    sf.record();
    string good = sim::fs::content(sf.path);
    for (int k = 0; k < rounds; k++) {
      if (!ctx.op((uint32_t)(10 + k))) continue;
      Rng g = ctx.opRng((uint64_t)(10 + k));
      string bad = good;
      size_t from = g.chance(0.7) ? good.size() / 3 : 80; // records are mostly in the second part
      damageString(g, bad, from);
      sim::fs::setContent(sf.path, bad);
      readDamagedStruct(sf, g, bad.size());
    }
    nontrivial();
  }
  ctx.end();
}
SCENARIO("C12", damaged_layouts, 1) {
  Rng& r = ctx.rng;
  int n = 2 + (int)r.below(4);
  ctx.begin();
  for (int k = 0; k < n; k++) {
    if (!ctx.op((uint32_t)(10 + k))) continue;
    Rng g = ctx.opRng((uint64_t)(10 + k));
    damagedLayout(g);
  }
  nontrivial();
  ctx.end();
}
