#pragma once
#include "rec.h"
namespace w {
// faults for recording: which, how often, when
void pickWriteFaults(Ctx& ctx, bool async, bool huge);
void pickReadFaults(Ctx& ctx);
string pickEngine(Rng& r);
} // namespace w
