// The functions of vrs/utils/PixelFrameOcean.cpp and vrs/utils/PixelFrameOptions.cpp, which are not
// compiled because they need Ocean. All but one do nothing but abort: a test that calls one fails.
// Bound by mangled name, so that this file needs none of the project's headers. If one of these
// functions changes its signature or a new one is added, linking fails until this list is updated.

#include <cstdio>
#include <cstdlib>

#define LEFT_OUT(n, symbol)                                                      \
  extern "C" [[noreturn]] void left_out_##n() __asm__(symbol);                   \
  extern "C" [[noreturn]] void left_out_##n() {                                  \
    fputs("left out of this build (needs Ocean): " symbol "\n", stderr);         \
    abort();                                                                     \
  }

// PixelFrame::normalizeToPixelFormatWithOcean(PixelFrame&, PixelFormat, const NormalizeOptions&) const
// (says that it can't convert: the conversions which don't need Ocean are used instead)
extern "C" bool left_out_1() __asm__("_ZNK3vrs5utils10PixelFrame31normalizeToPixelFormatWithOceanERS1_NS_11PixelFormatERKNS0_16NormalizeOptionsE");
extern "C" bool left_out_1() { return false; }
// PixelFrame::msssimCompare(const PixelFrame&, double&)
LEFT_OUT(2, "_ZN3vrs5utils10PixelFrame13msssimCompareERKS1_Rd")
// ResizeOptions::withRatio(float)
LEFT_OUT(3, "_ZN3vrs5utils13ResizeOptions9withRatioEf")
// ResizeOptions::withResolution(uint32_t, uint32_t)
LEFT_OUT(4, "_ZN3vrs5utils13ResizeOptions14withResolutionEjj")
// ResizeOptions::computeTargetDimensions(uint32_t, uint32_t, uint32_t&, uint32_t&) const
LEFT_OUT(5, "_ZNK3vrs5utils13ResizeOptions23computeTargetDimensionsEjjRjS2_")
// ResizeOptions::canResize(PixelFormat)
LEFT_OUT(6, "_ZN3vrs5utils13ResizeOptions9canResizeENS_11PixelFormatE")
// ResizeOptions::resize(const PixelFrame&) const
LEFT_OUT(7, "_ZNK3vrs5utils13ResizeOptions6resizeERKNS0_10PixelFrameE")
