#include "rec.h"
using namespace w;

static void recordAndCheck(Ctx& ctx, RecCfg c) {
  ctx.begin();
  RecRun r(ctx, c);
  r.run();
  r.flushRest();
  r.checkAll();
  if (r.model.recs.size() > 3) sim::nontrivial();
  ctx.end();
}
SCENARIO("C01", record_any, 3) { recordAndCheck(ctx, pickCfg(ctx)); }
SCENARIO("C01", record_pool, 2) {
  RecCfg c = pickCfg(ctx);
  c.pool = 1 + (int)ctx.rng.below(4);
  c.producers = 1 + (int)ctx.rng.below(3);
  if (c.mode == RecCfg::kSync) c.mode = RecCfg::kAuto;
  recordAndCheck(ctx, c);
}
SCENARIO("C01", record_prealloc_late, 0.6) {
  RecCfg c = pickCfg(ctx);
  c.mode = ctx.rng.chance(0.5) ? RecCfg::kManual : RecCfg::kMixed;
  c.split = false;
  c.streams = 1 + (int)ctx.rng.below(2);
  c.prealloc = true;
  c.preallocMax = 6;
  c.late = true;
  c.controlOps = 4 + (int)ctx.rng.below(22);
  c.producers = (int)ctx.rng.below(2);
  c.opsPerProducer = 1 + (int)ctx.rng.below(5);
  recordAndCheck(ctx, c);
}
