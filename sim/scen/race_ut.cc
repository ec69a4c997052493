#include "race_ut.h"
#include <vrs/DataSource.h>
#include <vrs/os/Time.h>

namespace w {
RaceStream::RaceStream(vrs::RecordableTypeId type, int n) : Recordable(type, "team/test/race") {
  setTag("n", std::to_string(n));
}
const vrs::Record* RaceStream::createConfigurationRecord() {
  uint32_t v = 1;
  return createRecord(vrs::os::getTimestampSec(), vrs::Record::Type::CONFIGURATION, 1, vrs::DataSource(vrs::DataSourceChunk(v)));
}
const vrs::Record* RaceStream::createStateRecord() {
  uint32_t v = 2;
  return createRecord(vrs::os::getTimestampSec(), vrs::Record::Type::STATE, 1, vrs::DataSource(vrs::DataSourceChunk(v)));
}
const vrs::Record* RaceStream::data(double ts, size_t size, bool compressible) {
  std::vector<uint8_t> v(size);
  uint32_t x = (uint32_t)size * 2654435761u;
  for (auto& b : v) { x = x * 1664525 + 1013904223; b = compressible ? 7 : (uint8_t)(x >> 24); }
  return createRecord(ts, vrs::Record::Type::DATA, 2, vrs::DataSource(vrs::DataSourceChunk(v)));
}
namespace {
thread_local std::thread::id tlId;
}
void nameThread(std::thread& t, vrs::ThreadRole, int) {
  tlId = t.get_id();
  (void)t.native_handle();
}
} // namespace w
