// Memory asked for by the code under test: no single allocation out of proportion with its input.
#pragma once
#include <cstddef>
namespace w {
extern bool gTrackAlloc;
extern size_t gAllocLimit, gAllocMax;
struct AllocTrack {
  explicit AllocTrack(size_t fileSize) {
    gAllocLimit = (160u << 20) + 100 * fileSize;
    gAllocMax = 0;
    gTrackAlloc = true;
  }
  ~AllocTrack() { gTrackAlloc = false; }
};
struct AllocPause {
  bool was = gTrackAlloc;
  AllocPause() { gTrackAlloc = false; }
  ~AllocPause() { gTrackAlloc = was; }
};
} // namespace w
