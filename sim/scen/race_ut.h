// User code for the data race scenarios (C22), compiled like the code under test.
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include <vrs/RecordFileWriter.h>
#include <vrs/Recordable.h>

namespace w {
class RaceStream : public vrs::Recordable {
 public:
  RaceStream(vrs::RecordableTypeId type, int n);
  const vrs::Record* createConfigurationRecord() override;
  const vrs::Record* createStateRecord() override;
  const vrs::Record* data(double ts, size_t size, bool compressible);
};
// priority or name of a new thread, as the documentation of the callback says
void nameThread(std::thread& t, vrs::ThreadRole role, int index);
} // namespace w
