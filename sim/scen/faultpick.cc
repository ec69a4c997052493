#include "faultpick.h"
namespace w {
using namespace sim;
// faults for recording: which, how often, when
void pickWriteFaults(Ctx& ctx, bool async, bool huge) {
  Rng& r = ctx.rng;
  FaultConfig& f = faultCfg();
  static const int kinds[] = {fWriteEio, fWriteEnospc, fShortWrite, fOpenFail, fCloseEio, fTruncFail, fSeekFail, fSlowIo};
  int n = 1 + (int)r.below(3);
  for (int i = 0; i < n; i++) {
    int k = kinds[r.below(8)];
    static const double ps[] = {0.005, 0.03, 0.15, 0.6, 1.0};
    f.prob[k] = ps[r.below(5)];
    if (r.chance(0.6)) f.limit[k] = 1 + (int)r.below(3);
  }
  if (async && r.chance(0.6)) {
    static const int ak[] = {fAioSubmit, fAioError, fAioShort};
    f.prob[ak[r.below(3)]] = r.chance(0.5) ? 0.05 : 0.4;
  }
  if (r.chance(0.5)) { f.fromIo = r.below(120); f.toIo = f.fromIo + 1 + r.below(200); }
  if (r.chance(0.25)) f.diskCapacity = 500 + (int64_t)r.below(huge ? 3000000 : 60000);
  if (r.chance(0.3)) fs::setStdioBuf(16 << r.below(10));
}
string pickEngine(Rng& r) {
  string s = "ioengine=";
  int e = (int)r.below(3);
  s += e == 0 ? "sync" : e == 1 ? "psync" : "aio";
  s += r.chance(0.5) ? "&direct=1" : "&direct=0";
  static const char* bs[] = {"4096", "8192", "16384", "65536"};
  s += string("&buffer_size=") + bs[r.below(4)];
  s += "&buffer_count=" + std::to_string(1 + r.below(5));
  s += "&iodepth=" + std::to_string(1 + r.below(4));
  s += "&mem_align=4096&offset_align=4096";
  return s;
}
void pickReadFaults(Ctx& ctx) {
  Rng& r = ctx.rng;
  FaultConfig& f = faultCfg();
  static const int kinds[] = {fReadEio, fShortRead, fOpenFail, fSeekFail, fCloseEio, fStatFail, fSlowIo};
  int n = 1 + (int)r.below(2);
  for (int i = 0; i < n; i++) {
    int k = kinds[r.below(7)];
    if (r.chance(0.5)) k = r.chance(0.5) ? fReadEio : fShortRead;
    static const double ps[] = {0.01, 0.05, 0.2, 0.6, 1.0};
    f.prob[k] = ps[r.below(5)];
    if (r.chance(0.6)) f.limit[k] = 1 + (int)r.below(3);
  }
  if (r.chance(0.5)) { f.fromIo = r.below(80); f.toIo = f.fromIo + 1 + r.below(100); }
  if (r.chance(0.3)) fs::setStdioBuf(16 << r.below(10));
}
} // namespace w
